//! Generators shared by several checks.
use crate::hist::{Code::*, *};

/// A history on handle `h`: contents, then some mutation phases.
pub fn history(g: &mut Gen, h: u8, phases: u64) {
    g.seed_phase(h);
    for _ in 0..g.r.below(phases + 1) {
        g.phase(h);
    }
}
/// A pair of keys, mostly close or around block edges.
pub fn key_pair(g: &mut Gen, h: u8) -> (u32, u32) {
    let a = g.key(h);
    let b = match g.r.weighted(&[4, 3, 2, 1]) {
        0 => g.key(h),
        1 => a.saturating_add(g.r.logsize(g.p.l * 4)).min(MAXKEY - 1),
        2 => a,
        _ => a.saturating_sub(g.r.below(3) as u32),
    };
    if g.r.chance(9, 10) && a > b {
        (b, a)
    } else {
        (a, b)
    }
}
/// Bound kinds of a range step and its front/back pattern.
pub fn bound_kinds(g: &mut Gen) -> u64 {
    let kinds = match g.r.weighted(&[60, 20, 20]) {
        0 => (g.r.below(2), g.r.below(2)),
        1 => (g.r.below(2), 2),
        _ => (2, g.r.below(3)),
    };
    kinds.0 | kinds.1 << 2 | g.pat() << 8
}
pub fn range_step(g: &mut Gen, h: u8, code: Code) -> Step {
    let (a, b) = key_pair(g, h);
    let s = bound_kinds(g);
    st(code, h, a, b, s)
}
/// A write through one of the mutable handles.
pub fn write_step(g: &mut Gen, h: u8) -> Step {
    let k = g.key(h);
    let s = g.r.next();
    match g.r.weighted(&[3, 2, 3, 4, 3, 3]) {
        0 => st(WGetMut, h, k, 0, s),
        1 => st(WIndex, h, k, 0, s),
        2 => st(WEntry, h, k, 0, s),
        3 => st(WVacant, h, k, 0, s),
        4 => st(WIterMut, h, k, 0, s),
        _ => {
            let (a, b) = key_pair(g, h);
            st(WRangeMut, h, a, b, s)
        }
    }
}
/// A single elementary call.
pub fn point_step(g: &mut Gen, h: u8) -> Step {
    let k = g.key(h);
    match g.r.weighted(&[4, 4, 3, 2, 1]) {
        0 => st(Lookup, h, k, 0, 0),
        1 => st(Insert, h, k, if g.rec { g.r.below(6) as u32 } else { *g.r.pick(&[0, 2, 3, 4]) }, 0),
        2 => st(Remove, h, k, g.r.below(3) as u32, 0),
        3 => st(PopOne, h, g.r.below(2) as u32, 0, 0),
        _ => st(Peek, h, k, 0, 0),
    }
}
pub fn iter_step(g: &mut Gen, h: u8) -> Step {
    let live = g.sims[h as usize].keys.len() as u32;
    let a = g.r.logsize(live.max(1));
    let p = g.pat();
    match g.r.weighted(&[4, 2, 2]) {
        0 => st(Iter, h, a, 0, p),
        1 => st(IterMutRead, h, a, 0, p),
        _ => st(IterClone, h, a, 0, p),
    }
}
pub fn consume_step(g: &mut Gen, h: u8) -> Step {
    let live = g.sims[h as usize].keys.len() as u32;
    let stop = match g.r.below(5) {
        0 => g.r.below(live as u64 + 1) as u32,
        1 => (g.r.below(live as u64 / g.p.l.max(1) as u64 + 1) * g.p.l as u64) as u32,
        _ => u32::MAX,
    };
    let c = if g.r.chance(1, 2) { Consume } else { ConsumeClone };
    let p = g.pat();
    st(c, h, stop, 0, p)
}
/// Consuming empties the handle in the simulation.
pub fn push_consume(g: &mut Gen, s: Step) {
    g.raw(s);
    if s.c == Consume {
        g.sims[s.h as usize].keys.clear();
    }
}
/// Copy handle `a` over handle `b`.
pub fn clone_to(g: &mut Gen, a: u8, b: u8) {
    let into = g.r.below(2);
    g.raw(st(CloneTo, a, b as u32, 0, into));
    if a != b {
        g.sims[b as usize] = g.sims[a as usize].clone();
    }
}
pub fn move_to(g: &mut Gen, a: u8, b: u8) {
    g.raw(st(MoveTo, a, b as u32, 0, 0));
    if a != b {
        let t = std::mem::take(&mut g.sims[a as usize]);
        g.sims[b as usize] = t;
    }
}
pub fn drop_h(g: &mut Gen, h: u8) {
    g.raw(st(DropH, h, 0, 0, 0));
    g.sims[h as usize].keys.clear();
}
/// Merge `b` into `a` (`mode`: which of the six calls; `keep`: a clone of `b` is merged).
pub fn merge(g: &mut Gen, a: u8, b: u8, mode: u32, keep: bool) {
    g.raw(st(Merge, a, b as u32, mode, keep as u64));
    if a != b {
        let t = g.sims[b as usize].keys.clone();
        g.sims[a as usize].keys.extend(t);
        if !keep {
            g.sims[b as usize].keys.clear();
        }
    }
}
pub fn merge_ref(g: &mut Gen, a: u8, b: u8, c: Code, alt: u32) {
    g.raw(st(c, a, b as u32, alt, 0));
    if a != b {
        let t = g.sims[b as usize].keys.clone();
        g.sims[a as usize].keys.extend(t);
    }
}
pub fn merge_iter(g: &mut Gen, h: u8, o: u8) -> Step {
    let b = g.r.below(8) as u32;
    let s = g.r.next();
    st(MergeIter, h, o as u32, b, s)
}
/// One action on several handles: everything the library offers.
pub fn any_action(g: &mut Gen, slots: u8) {
    let h = g.r.below(slots as u64) as u8;
    let o = g.r.below(slots as u64) as u8;
    match g.r.weighted(&[22, 12, 6, 6, 10, 12, 4, 2, 2, 5, 3, 3, 2]) {
        0 => g.phase(h),
        1 => {
            for _ in 0..1 + g.r.below(5) {
                let s = point_step(g, h);
                g.push(s)
            }
        }
        2 => {
            let s = iter_step(g, h);
            g.raw(s)
        }
        3 => {
            let c = if g.r.chance(1, 2) { Range } else { RangeMut };
            let s = range_step(g, h, c);
            g.raw(s)
        }
        4 => {
            let s = write_step(g, h);
            g.push(s)
        }
        5 => {
            if h != o {
                clone_to(g, h, o)
            }
        }
        6 => {
            let s = consume_step(g, h);
            push_consume(g, s)
        }
        7 => drop_h(g, h),
        8 => {
            if h != o {
                move_to(g, h, o)
            }
        }
        9 => {
            if h != o {
                let m = g.r.below(6) as u32;
                let keep = g.r.chance(1, 2);
                merge(g, h, o, m, keep)
            }
        }
        10 => {
            let s = merge_iter(g, h, o);
            g.raw(s)
        }
        11 => {
            if h != o {
                let c = *g.r.pick(&[AddRef, AddAssignRef, ExtendRef]);
                let alt = g.r.below(2) as u32;
                if g.p.copy {
                    merge_ref(g, h, o, c, alt)
                }
            }
        }
        _ => {
            let s = g.r.next();
            let c = g.r.chance(1, 2);
            g.raw(if c { st(Compare, h, o as u32, 0, 0) } else { st(DebugIter, h, s as u32 % 9, s as u32 / 9 % 9, s) })
        }
    }
}
/// A whole multi-handle case.
pub fn multi(g: &mut Gen, slots: u8, actions: u64) {
    history(g, 0, 2);
    if g.r.chance(2, 3) {
        for o in 1..slots {
            if g.r.chance(2, 3) {
                clone_to(g, 0, o)
            }
        }
    }
    for _ in 0..1 + g.r.below(actions) {
        any_action(g, slots)
    }
    g.push(st(End, 0, 0, 0, 0));
}
