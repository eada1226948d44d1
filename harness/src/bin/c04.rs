//! C04: writes through mutable handles.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 1;
const OWN: &[Code] = &[WGetMut, WIndex, WEntry, WVacant, WIterMut, WRangeMut];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    g.seed_phase(0);
    for _ in 0..1 + g.r.below(6) {
        g.phase(0);
        if g.r.chance(1, 4) {
            // a run of vacant insertions: splits at every level
            let k = g.key(0);
            let d = *g.r.pick(&[1i64, 1, 2, -1, 3]);
            for i in 0..g.r.logsize(g.p.l * 4) as i64 {
                let x = (k as i64 + i * d).clamp(0, MAXKEY as i64 - 1) as u32;
                g.push(st(WVacant, 0, x, 0, 0));
            }
        }
        for _ in 0..3 + g.r.below(14) {
            let s = write_step(&mut g, 0);
            g.push(s);
        }
    }
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) })
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C04",
        giant: 600,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 32, 800),
            combo!(PK, u64, Cfg<U5, U5, Unique>, 12, 1000),
            combo!(PK, u64, Cfg<U4, U9, Shared>, 14, 1000),
            combo!(PK, u64, Cfg<U7, U4, SyncShared>, 14, 1000),
            combo!(String, Vec<u64>, Cfg<U15, U17, Shared>, 8, 1500),
            combo!(u32, Big, Cfg<U16, U16, Unique>, 8, 2000),
            combo!(PK, u64, Tree64<Unique>, 12, 9000),
        ],
        gen,
        exec,
    });
}
