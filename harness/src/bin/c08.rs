//! C08: clones are independent snapshots.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::interp::*;
use ptmon::runner::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    if g.n < 60_000 {
        g.n = g.n.min(400);
    }
    let actions = 4 + g.r.below(20);
    multi(&mut g, 3, actions);
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, panics: false, ..Opt::new(ALL, Mode::Isolation, 3) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C08",
        giant: 7000,
        combos: vec![
            combo!(copy PK, u64, Cfg<U4, U4, Shared>, 25, 600),
            combo!(copy PK, u64, Cfg<U4, U4, SyncShared>, 15, 600),
            combo!(copy PK, u64, Cfg<U4, U4, Unique>, 8, 600),
            combo!(TK, TV, Cfg<U4, U9, Shared>, 12, 600),
            combo!(TK, TV, Cfg<U7, U4, SyncShared>, 12, 600),
            combo!(String, Vec<u64>, Cfg<U5, U5, Shared>, 8, 600),
            combo!(PK, u64, Cfg<U5, U4, Typed>, 6, 600),
            combo!(copy PK, u64, Tree64<Shared>, 10, 2500),
            combo!(PK, u64, Tree64<SyncShared>, 10, 2500),
        ],
        gen,
        exec,
    });
}
