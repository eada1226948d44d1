//! C18: capacities, pointer kind and element layout are unobservable.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::runner::*;

use ptmon::hist::{Code::*, *};
use ptmon::interp::*;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    // one case in eight compares every configuration, the others a few
    let mut which: u64 = 1 << combo;
    if g.r.chance(1, 8) {
        which = (1 << WIDE) - 1
    } else {
        for _ in 0..2 + g.r.below(3) {
            which |= 1 << g.r.below(WIDE);
        }
        which |= 1;
    }
    if g.r.chance(1, 150) && big != 0 && !cfg!(miri) && !cfg!(ptmon_san) {
        // the narrowest nodes at a height beyond 16, against the shipped configuration
        // leaves two full: 17 levels of branches from 2^18 entries, 19 from 2^20 (22 in thorough runs)
        let n = 140_000 + if g.r.chance(1, 2) { g.r.below(60_000) } else { 130_000 + g.r.below(300_000) } as u32;
        let n = if g.r.chance(1, 8) { n * if big > 1 { 16 } else { 4 } } else { n };
        let down = g.r.chance(1, 3);
        let a = if down { n * 2 + 10 } else { 10 };
        let via = *g.r.pick(&[0u8, 1, 2]);
        g.push(st(Fill, 0, a, n, pack(if down { -2 } else { 2 }, via)));
        for _ in 0..20 {
            let s = point_step(&mut g, 0);
            g.push(s);
            let s = range_step(&mut g, 0, Range);
            g.raw(st(s.c, 0, s.a, s.a + 40, 0));
        }
        g.raw(st(Iter, 0, 5, 0, 3));
        if g.r.chance(1, 2) {
            g.raw(st(Consume, 0, 1000, 0, 3));
        } else {
            g.push(st(Pop, 0, 1, 100, 0));
            g.push(st(Pop, 0, 0, 100, 0));
            g.raw(st(Contents, 0, 0, 0, 0));
        }
        return Case { combo: 0, steps: g.out, x: 0b1 | 1 << TALL_OTHER };
    }
    if g.r.chance(1, 500) && big != 0 && !cfg!(miri) && !cfg!(ptmon_san) {
        // one node with more children, or entries, than 16 bits count
        let entries = g.r.chance(1, 2);
        let n = if entries { 66_000 + g.r.below(3000) } else { 131_000 + g.r.below(140_000) } as u32;
        if g.r.chance(1, 2) {
            let via = *g.r.pick(&[0u8, 1, 2]);
            g.push(st(Fill, 0, 10, n, pack(2, via)));
        } else {
            let n = if entries { n } else { n * 2 };
            g.push(st(Load, 0, 10, n, 2));
        }
        let top = 10 + n * 2;
        for i in 0..40 {
            let mut s = point_step(&mut g, 0);
            if i % 3 == 0 {
                s.a = g.r.below(top as u64 + 4) as u32;
            }
            if s.c != PopOne {
                g.push(s);
            }
            let s = range_step(&mut g, 0, Range);
            g.raw(st(s.c, 0, s.a, s.a + 40, 0));
        }
        g.raw(st(Iter, 0, 5, 0, 3));
        return Case { combo: 0, steps: g.out, x: 1 | 1 << TALL_OTHER | 1 << (WIDE + !entries as u64) };
    }
    if g.r.chance(1, 6) && big != 0 && !cfg!(miri) && !cfg!(ptmon_san) {
        // long branches need many entries
        which = 1 | 1 << TALL_OTHER | 1 << (LONG + g.r.below(3));
        g.n = g.n.max(2500 + g.r.below(5000) as u32);
    } else {
        g.n = g.n.min(1500);
    }
    let actions = 4 + g.r.below(12);
    multi(&mut g, 3, actions);
    let at = g.out.len() - 1;
    g.out.insert(at, st(Contents, 0, 0, 0, 0));
    Case { combo, steps: g.out, x: which }
}
const TALL_OTHER: u64 = 7;
const LONG: u64 = 9;
/// from here on only in cases made for them
const WIDE: u64 = 13;

fn exec(combos: &[Combo], c: &Case) -> Out {
    let solo: Option<usize> = std::env::var("PTMON_SOLO").ok().and_then(|s| s.parse().ok());
    let mut first: Option<(usize, Out)> = None;
    let mut sum = Stats::default();
    for i in 0..combos.len() {
        if c.x >> i & 1 == 0 || solo.map_or(false, |s| s != i) {
            continue;
        }
        let mut o = (combos[i].run)(&c.steps, Opt { combo: i as u64, panics: false, ..Opt::new(ALL, Mode::Log, 3) });
        sum.merge(std::mem::take(&mut o.stats));
        match &first {
            None => first = Some((i, o)),
            Some((j, f)) => {
                let n = f.log.iter().zip(&o.log).position(|(a, b)| a != b);
                let n = n.or(if f.log.len() != o.log.len() { Some(f.log.len().min(o.log.len())) } else { None });
                if let Some(n) = n {
                    let what = |o: &Out| match o.log.iter().nth(n) {
                        None => "nothing".to_string(),
                        Some(0xdead) => format!("a panic ({})", o.foreign.as_ref().map_or("", |f| &f.msg)),
                        Some(x) => format!("results with digest {:x}", x),
                    };
                    let msg = format!(
                        "step {} ({}) gives {} on {} and {} on {}",
                        n,
                        c.steps.get(n).map_or("?".into(), |s| s.text()),
                        what(f),
                        combos[*j].name,
                        what(&o),
                        combos[i].name
                    );
                    return Out { fail: Some(Fail { step: n, msg }), stats: sum, ..Out::default() };
                }
                sum.faults += o.log.len() as u64;
            }
        }
    }
    let mut out = Out { stats: sum, ..Out::default() };
    if let Some((_, f)) = first {
        out.log = f.log;
        if solo.is_some() {
            println!("SOLO {:?}", out.log.iter().fold(0u64, |a, x| ptmon::rng::hash2(a, *x)));
        }
    }
    out
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C18",
        giant: 0,
        combos: vec![
            combo!(copy u32, u64, Cfg<U4, U4, Unique>, 20, 1200),
            combo!(copy u32, u64, Cfg<U5, U5, Shared>, 12, 1200),
            combo!(copy K32A, u64, Cfg<U4, U9, SyncShared>, 12, 1200),
            combo!(copy u32, V64A, Cfg<U7, U4, Shared>, 12, 1200),
            combo!(copy K128A, V32A, Cfg<U6, U6, Unique>, 10, 1200),
            combo!(copy u32, u64, Cfg<U15, U17, Unique>, 10, 1500),
            combo!(copy u32, u64, Cfg<U16, U16, SyncShared>, 10, 1500),
            combo!(copy u32, u64, Tree64<Unique>, 8, 3000),
            combo!(copy u32, u64, Tree64<Shared>, 6, 3000),
            combo!(copy u32, u64, Cfg<U256, U4, Unique>, 8, 4000),
            combo!(copy u32, u64, Cfg<U512, U5, SyncShared>, 6, 6000),
            combo!(copy u32, u64, Cfg<U16, U512, Shared>, 6, 6000),
            combo!(copy u32, u64, Cfg<U5, U4, Typed>, 8, 1200),
            combo!(copy u32, u64, Cfg<U4, U65536, Unique>, 0, 70000),
            combo!(copy u32, u64, Cfg<U65536, U4, Shared>, 0, 270000),
        ],
        gen,
        exec,
    });
}
