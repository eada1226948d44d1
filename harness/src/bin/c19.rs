//! C19: inconsistent orderings.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::runner::*;

use ptmon::hist::{Code::*, *};

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 2);
    g.n = g.n.min(if cfg!(miri) { 20 } else { 200 });
    let mode = 1 + g.r.below(12);
    // lawful for a while, then not; or lawless from the start
    let from = if g.r.chance(1, 2) { 0 } else { 1 + g.r.below(6) };
    let mut n = 0;
    history(&mut g, 0, 2);
    while n < 3 + g.r.below(12) {
        if g.r.chance(1, 5) {
            let (a, b, s) = (g.key(0), g.r.logsize(120), g.r.next());
            g.raw(st(LoadAny, 0, a.min(1000), b, s));
        } else if g.r.chance(1, 4) {
            let s = write_step(&mut g, 0);
            let c = if g.r.chance(1, 2) { WIterMut } else { WRangeMut };
            g.push(Step { c, ..s });
        } else {
            any_action(&mut g, 2);
        }
        n += 1;
    }
    g.push(st(End, 0, 0, 0, 0));
    Case { combo, steps: g.out, x: mode | from << 8 | (seed & 0xffff) << 16 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    // mode 10 stands for a lawful ordering: only the unordered loads are out of order then
    let mode = (c.x & 0xff) as u8;
    (combos[c.combo].run)(
        &c.steps,
        Opt { combo: c.combo as u64, lawless: if mode == 10 { 0 } else { mode }, lawless_from: (c.x >> 8 & 0xff) as usize, lawless_seed: c.x >> 16, ..Opt::memory(2) },
    )
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C19",
        giant: 0,
        combos: vec![
            combo!(TK, TV, Cfg<U4, U4, Unique>, 30, 400),
            combo!(TK, TV, Cfg<U4, U9, Shared>, 16, 400),
            combo!(TK, TV, Cfg<U7, U4, SyncShared>, 16, 400),
            combo!(TK, u64, Cfg<U5, U5, Unique>, 16, 400),
            combo!(TK, TV, Cfg<U5, U4, Typed>, 8, 400),
            combo!(TK, TV, Cfg<U15, U17, Unique>, 10, 600),
            combo!(TK, TV, Tree64<Unique>, 12, 2000),
        ],
        gen,
        exec,
    });
}
