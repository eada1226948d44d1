//! C16: copies happen only when a shared tree is about to change.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::interp::*;
use ptmon::runner::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    let actions = 4 + g.r.below(24);
    multi(&mut g, 3, actions);
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, panics: false, ..Opt::new(ALL, Mode::Copies, 3) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C16",
        giant: 2300,
        combos: vec![
            combo!(TK, TV, Cfg<U4, U4, Shared>, 25, 600),
            combo!(TK, TV, Cfg<U4, U4, SyncShared>, 15, 600),
            combo!(TK, TV, Cfg<U4, U4, Unique>, 15, 600),
            combo!(TK, TV, Cfg<U5, U5, Shared>, 10, 800),
            combo!(TK, TV, Cfg<U4, U9, SyncShared>, 10, 800),
            combo!(TK, TV, Tree64<Unique>, 8, 4000),
            combo!(TK, TV, Tree64<Shared>, 12, 4000),
            combo!(TK, ZV, Cfg<U4, U4, Shared>, 6, 600),
        ],
        gen,
        exec,
    });
}
