//! C05: consuming iteration.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 2;
const OWN: &[Code] = &[Consume, ConsumeClone];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    history(&mut g, 0, 4);
    for _ in 0..1 + g.r.below(5) {
        if g.r.chance(1, 3) {
            // shared with another handle, or not
            clone_to(&mut g, 0, 1);
        }
        let s = consume_step(&mut g, 0);
        push_consume(&mut g, s);
        if g.sims[0].keys.is_empty() {
            if g.r.chance(1, 2) {
                clone_to(&mut g, 1, 0);
            } else {
                g.seed_phase(0);
            }
        }
        g.phase(0);
        if g.r.chance(1, 3) {
            g.phase(0);
        }
    }
    let s = consume_step(&mut g, 0);
    push_consume(&mut g, s);
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) })
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C05",
        giant: 1500,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 30, 2000),
            combo!(PK, u64, Cfg<U5, U5, Unique>, 12, 2000),
            combo!(PK, u64, Cfg<U4, U9, Shared>, 14, 2000),
            combo!(TK, TV, Cfg<U4, U4, SyncShared>, 14, 1000),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 8, 2000),
            combo!(u32, (), Cfg<U16, U16, Unique>, 8, 4000),
            combo!(PK, u64, Tree64<Unique>, 14, 12000),
        ],
        gen,
        exec,
    });
}
