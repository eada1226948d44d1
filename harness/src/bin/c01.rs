//! C01: point operations against an ordered map.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const OWN: &[Code] = &[Fill, Drain, Pop, Mix, Thin, Empty, Collect, Extend, Insert, Remove, PopOne, Lookup, Peek, Audit, End];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 1);
    g.seed_phase(0);
    let phases = 1 + g.r.below(7);
    for _ in 0..phases {
        g.phase(0);
        for _ in 0..g.r.below(14) {
            let k = g.key(0);
            let s = match g.r.weighted(&[6, 3, 3, 1, 2]) {
                0 => st(Lookup, 0, k, 0, 0),
                1 => st(Insert, 0, k, g.r.below(if g.rec { 6 } else { 5 }) as u32 * 5 % 6, 0),
                2 => st(Remove, 0, k, g.r.below(3) as u32, 0),
                3 => st(PopOne, 0, g.r.below(2) as u32, 0, 0),
                _ => st(Peek, 0, k, 0, 0),
            };
            g.push(s);
        }
        if g.r.chance(1, 2) {
            g.push(st(Audit, 0, 0, 0, 0));
        }
    }
    g.push(st(Audit, 0, 0, 0, 0));
    g.push(st(End, 0, 0, 0, 0));
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, 1) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C01",
        giant: 1200,
        combos: vec![
            combo!(copy PK, u64, Cfg<U4, U4, Unique>, 30, 3000),
            combo!(copy PK, u64, Cfg<U5, U5, Unique>, 14, 3000),
            combo!(copy PK, u64, Cfg<U4, U9, Shared>, 12, 3000),
            combo!(copy PK, u64, Cfg<U7, U4, SyncShared>, 12, 3000),
            combo!(TK, TV, Cfg<U4, U4, Shared>, 10, 1500),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 8, 4000),
            combo!(copy u32, (), Cfg<U16, U16, Unique>, 8, 6000),
            combo!(copy PK, u64, Tree64<Unique>, 14, 14000),
        ],
        gen,
        exec,
    });
}
