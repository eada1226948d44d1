//! C06: merging and appending.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 3;
const OWN: &[Code] = &[Merge, MergeIter, AddRef, AddAssignRef, ExtendRef, Append, Audit, Iter];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    history(&mut g, 0, 3);
    if g.r.chance(1, 3) {
        clone_to(&mut g, 0, 1);
        g.phase(1);
    } else if g.r.chance(4, 5) {
        history(&mut g, 1, 3);
    }
    for _ in 0..1 + g.r.below(6) {
        let a = g.r.below(3) as u8;
        let b = (a + 1 + g.r.below(2) as u8) % 3;
        match g.r.weighted(&[8, 4, 4, 2, 2]) {
            0 => {
                let m = g.r.below(6) as u32;
                let keep = g.r.chance(2, 3);
                merge(&mut g, a, b, m, keep);
                g.raw(st(Audit, a, 0, 0, 0));
                let s = iter_step(&mut g, a);
                g.raw(Step { c: Iter, ..s });
            }
            1 => {
                let s = merge_iter(&mut g, a, b);
                g.raw(s);
            }
            2 => {
                if g.p.copy {
                    let c = *g.r.pick(&[AddRef, AddAssignRef, ExtendRef]);
                    let alt = g.r.below(2) as u32;
                    merge_ref(&mut g, a, b, c, alt);
                    g.raw(st(Audit, a, 0, 0, 0));
                }
            }
            3 => clone_to(&mut g, a, b),
            _ => drop_h(&mut g, a),
        }
        g.phase(a);
        if g.r.chance(1, 2) {
            g.phase(b);
        }
    }
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) })
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C06",
        giant: 900,
        combos: vec![
            combo!(copy PK, u64, Cfg<U4, U4, Unique>, 30, 1200),
            combo!(copy PK, u64, Cfg<U5, U5, Unique>, 12, 1200),
            combo!(copy PK, u64, Cfg<U4, U9, Shared>, 14, 1200),
            combo!(TK, TV, Cfg<U7, U4, SyncShared>, 14, 800),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 8, 1500),
            combo!(copy u32, (), Cfg<U16, U16, Unique>, 8, 3000),
            combo!(copy PK, u64, Tree64<Unique>, 12, 9000),
        ],
        gen,
        exec,
    });
}
