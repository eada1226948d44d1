//! C17: memory held is bounded by the live contents.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 1);
    g.seed_phase(0);
    if g.r.chance(1, 3) {
        // growth only: every later phase adds
        for _ in 0..g.r.below(4) {
            let a = g.key(0);
            let n = g.r.logsize(g.n * 2);
            let stride = *g.r.pick(&[1, -1, 2, 5]);
            let via = g.ins_via();
            g.push(st(Fill, 0, a, n, pack(stride, via)));
        }
    } else {
        for _ in 0..1 + g.r.below(7) {
            g.phase(0);
            for _ in 0..g.r.below(4) {
                let s = if g.r.chance(1, 2) { point_step(&mut g, 0) } else { write_step(&mut g, 0) };
                g.push(s);
            }
        }
        if g.r.chance(1, 2) {
            let how = g.r.below(5) as u32;
            let s = g.r.next();
            g.push(st(Empty, 0, how, 0, s));
        }
        if g.r.chance(1, 3) {
            let s = consume_step(&mut g, 0);
            push_consume(&mut g, Step { c: Consume, ..s });
        }
    }
    g.push(st(End, 0, 0, 0, 0));
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, panics: false, ..Opt::new(ALL, Mode::Blocks, 1) })
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C17",
        giant: 2800,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 26, 3000),
            combo!(PK, u64, Cfg<U5, U5, Shared>, 12, 3000),
            combo!(PK, u64, Cfg<U4, U9, Unique>, 12, 3000),
            combo!(PK, u64, Cfg<U7, U4, SyncShared>, 12, 3000),
            combo!(TK, TV, Cfg<U15, U17, Unique>, 8, 3000),
            combo!(PK, u64, Cfg<U64, U4, Unique>, 8, 5000),
            combo!(PK, u64, Cfg<U4, U64, Unique>, 8, 5000),
            combo!(PK, u64, Tree64<Unique>, 14, 14000),
        ],
        gen,
        exec,
    });
}
