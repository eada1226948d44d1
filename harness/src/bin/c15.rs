//! C15: key comparisons per call.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 2;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    history(&mut g, 0, 2);
    for _ in 0..1 + g.r.below(5) {
        match g.r.below(8) {
            0 => clone_to(&mut g, 0, 1),
            1 => {
                let m = g.r.below(6) as u32;
                let keep = g.r.chance(1, 2);
                merge(&mut g, 0, 1, m, keep);
            }
            2 => {
                let s = merge_iter(&mut g, 0, 1);
                g.raw(s)
            }
            3 => g.phase(1),
            _ => g.phase(0),
        }
        g.raw(st(Audit, 0, 0, 0, 0));
        for _ in 0..2 + g.r.below(8) {
            let s = match g.r.weighted(&[4, 3, 2, 3, 1]) {
                0 => point_step(&mut g, 0),
                1 => range_step(&mut g, 0, Range),
                2 => range_step(&mut g, 0, RangeMut),
                3 => write_step(&mut g, 0),
                _ => iter_step(&mut g, 0),
            };
            g.push(s);
        }
        if g.r.chance(1, 6) {
            let s = consume_step(&mut g, 0);
            push_consume(&mut g, s);
        }
    }
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, panics: false, ..Opt::new(ALL, Mode::Cost, SLOTS) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C15",
        giant: 0,
        combos: vec![
            combo!(CK, u64, Cfg<U4, U4, Unique>, 20, 20000),
            combo!(CK, u64, Cfg<U7, U4, Shared>, 8, 8000),
            combo!(CK, u64, Cfg<U15, U17, Unique>, 8, 20000),
            combo!(CK, u64, Tree64<Unique>, 16, 60000),
            combo!(CK, u64, Tree64<SyncShared>, 6, 30000),
            combo!(CK, u64, Cfg<U256, U256, Unique>, 14, 120000),
            combo!(CK, u64, Cfg<U512, U16, Unique>, 8, 60000),
            combo!(CK, u64, Cfg<U16, U512, Unique>, 8, 60000),
        ],
        gen,
        exec,
    });
}
