//! C09: every key and value is handed back or dropped exactly once.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::interp::*;
use ptmon::runner::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    let actions = 4 + g.r.below(20);
    multi(&mut g, 3, actions);
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, panics: false, ..Opt::new(ALL, Mode::Ledger, 3) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C09",
        giant: 4700,
        combos: vec![
            combo!(TK, TV, Cfg<U4, U4, Unique>, 25, 600),
            combo!(TK, TV, Cfg<U4, U4, Shared>, 16, 600),
            combo!(TK, TV, Cfg<U4, U4, SyncShared>, 12, 600),
            combo!(TK, TV, Cfg<U5, U5, Unique>, 10, 800),
            combo!(TK, TV, Cfg<U4, U9, Shared>, 10, 800),
            combo!(u32, TV, Cfg<U7, U4, SyncShared>, 8, 800),
            combo!(TK, (), Cfg<U6, U6, Unique>, 6, 800),
            combo!(TK, TV, Tree64<Unique>, 10, 4000),
            combo!(TK, ZV, Cfg<U4, U5, Unique>, 5, 600),
            combo!(TK, TV, Cfg<U5, U4, Typed>, 5, 600),
            combo!(TK, ZV, Cfg<U5, U4, Shared>, 5, 600),
        ],
        gen,
        exec,
    });
}
