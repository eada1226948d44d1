//! C10: safe use never touches memory it should not.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::runner::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    let actions = if cfg!(miri) { 4 } else { 4 + g.r.below(20) };
    multi(&mut g, 3, actions);
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::memory(3) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C10",
        giant: 0,
        combos: vec![
            combo!(TK, TV, Cfg<U4, U4, Unique>, 24, 500),
            combo!(TK, TV, Cfg<U4, U9, Shared>, 14, 500),
            combo!(TK, TV, Cfg<U7, U4, SyncShared>, 14, 500),
            combo!(String, Vec<u64>, Cfg<U5, U5, Unique>, 10, 500),
            combo!(K32A, V64A, Cfg<U4, U4, Shared>, 8, 500),
            combo!(K64A, V128A, Cfg<U5, U4, SyncShared>, 8, 500),
            combo!(copy K128A, u64, Cfg<U4, U5, Unique>, 6, 500),
            combo!(copy u32, (), Cfg<U4, U4, Unique>, 6, 500),
            combo!(u32, Big, Cfg<U6, U6, Shared>, 5, 500),
            combo!(TK, TV, Cfg<U5, U4, Typed>, 6, 500),
            combo!(TK, TV, Tree64<Unique>, 8, 3000),
        ],
        gen,
        exec,
    });
}
