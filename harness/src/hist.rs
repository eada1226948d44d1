//! Histories: what a step is, and the generator of hostile histories.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// rank -> (tag of the stored key, value)
pub type Model = BTreeMap<u32, (u32, u64)>;

macro_rules! codes {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Code { $($n),* }
        impl Code {
            pub const ALL: &'static [Code] = &[$(Code::$n),*];
            pub fn name(self) -> &'static str { match self { $(Code::$n => stringify!($n)),* } }
            pub fn parse(s: &str) -> Option<Code> { match s { $(stringify!($n) => Some(Code::$n),)* _ => None } }
        }
    }
}
codes!(
    // macro mutations
    Fill, Drain, Pop, Mix, Thin, Load, Collect, FromMap, Append, Extend, Reclone, Empty,
    // single point operations
    Insert, Remove, PopOne, Lookup, Audit, Peek,
    // iteration
    Iter, IterMutRead, IterClone, Range, RangeMut,
    // writes
    WGetMut, WIndex, WEntry, WVacant, WIterMut, WRangeMut,
    // consuming
    Consume, ConsumeClone,
    // two handles
    Merge, MergeIter, AddRef, AddAssignRef, ExtendRef,
    // handles
    CloneTo, DropH, MoveTo,
    // whole-tree comparisons
    Compare, DebugIter, Contents,
    // loading
    LoadCmp, LoadBad, LoadAny,
    // end of case: drop everything
    End,
);

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub struct Step {
    pub c: Code,
    pub h: u8,
    pub a: u32,
    pub b: u32,
    pub s: u64,
}
pub fn st(c: Code, h: u8, a: u32, b: u32, s: u64) -> Step {
    Step { c, h, a, b, s }
}
impl Step {
    pub fn text(&self) -> String {
        format!("{} {} {} {} {}", self.c.name(), self.h, self.a, self.b, self.s)
    }
    pub fn parse(l: &str) -> Option<Step> {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() != 5 {
            return None;
        }
        Some(Step {
            c: Code::parse(f[0])?,
            h: f[1].parse().ok()?,
            a: f[2].parse().ok()?,
            b: f[3].parse().ok()?,
            s: f[4].parse().ok()?,
        })
    }
}

/// One elementary mutation.
#[derive(Clone, Copy, Debug)]
pub enum Micro {
    Ins(u32, u8),
    Rem(u32, u8),
    PopLo,
    PopHi,
}
pub const MAXKEY: u32 = 1 << 30;

pub fn fill_keys(a: u32, b: u32, stride: i32) -> impl Iterator<Item = u32> {
    (0..b as i64).filter_map(move |i| {
        let k = a as i64 + i * stride as i64;
        if (0..MAXKEY as i64).contains(&k) {
            Some(k as u32)
        } else {
            None
        }
    })
}
pub fn pack(stride: i32, via: u8) -> u64 {
    (stride as u32) as u64 | (via as u64) << 32
}
pub fn unpack(s: u64) -> (i32, u8) {
    (s as u32 as i32, (s >> 32) as u8)
}
/// via 250.. = pick per element
fn via_of(r: &mut Rng, via: u8) -> u8 {
    if via == 255 {
        r.below(6) as u8
    } else if via == 254 {
        // no recursive insertion
        *r.pick(&[0u8, 2, 3, 4, 5])
    } else {
        via
    }
}
pub fn sorted_load(a: u32, b: u32, stride: u32) -> Vec<u32> {
    fill_keys(a, b, stride.max(1).min(1 << 20) as i32).collect()
}

/// Expand a macro step into elementary mutations; `keys` are the live keys.
pub fn expand<'a>(st: &Step, keys: &mut dyn Iterator<Item = &'a u32>) -> Vec<Micro> {
    let mut out = Vec::new();
    match st.c {
        Code::Fill => {
            let (stride, via) = unpack(st.s);
            let mut r = Rng::new(st.s ^ st.a as u64);
            for k in fill_keys(st.a, st.b, stride) {
                out.push(Micro::Ins(k, via_of(&mut r, via)));
            }
        }
        Code::Drain => {
            let order = (st.s & 0xff) as u8;
            let via = (st.s >> 8 & 0xff) as u8;
            let mut r = Rng::new(st.s);
            let mut ks: Vec<u32> = keys.copied().filter(|k| *k >= st.a && *k <= st.b).collect();
            match order {
                0 => {}
                1 => ks.reverse(),
                _ => shuffle(&mut r, &mut ks),
            }
            for k in ks {
                out.push(Micro::Rem(k, via_of(&mut r, via)));
            }
        }
        Code::Pop => {
            for i in 0..st.b {
                out.push(match st.a {
                    0 => Micro::PopLo,
                    1 => Micro::PopHi,
                    _ => {
                        if i % 2 == 0 {
                            Micro::PopLo
                        } else {
                            Micro::PopHi
                        }
                    }
                });
            }
        }
        Code::Mix => {
            let n = st.s & 0xffff;
            let bias = st.s >> 16 & 0xff;
            let via = (st.s >> 24 & 0xff) as u8;
            let mut r = Rng::new(st.s);
            for _ in 0..n {
                let k = st.a.saturating_add(r.below(st.b as u64 + 1) as u32).min(MAXKEY - 1);
                if r.below(256) < bias {
                    out.push(Micro::Ins(k, via_of(&mut r, via)));
                } else {
                    out.push(Micro::Rem(k, via_of(&mut r, 254)));
                }
            }
        }
        Code::Thin => {
            let m = st.a.max(2);
            for (i, k) in keys.enumerate() {
                if i as u32 % m != st.b % m {
                    out.push(Micro::Rem(*k, (st.s % 3) as u8));
                }
            }
        }
        Code::Empty => {
            let mut ks: Vec<u32> = keys.copied().collect();
            match st.a {
                0 => out.extend(ks.iter().map(|_| Micro::PopLo)),
                1 => out.extend(ks.iter().map(|_| Micro::PopHi)),
                2 => out.extend(ks.iter().map(|k| Micro::Rem(*k, 0))),
                3 => out.extend(ks.iter().rev().map(|k| Micro::Rem(*k, 1))),
                _ => {
                    let mut r = Rng::new(st.s);
                    shuffle(&mut r, &mut ks);
                    out.extend(ks.iter().map(|k| Micro::Rem(*k, (st.s % 3) as u8)))
                }
            }
        }
        _ => {}
    }
    out
}
pub fn shuffle<T>(r: &mut Rng, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        xs.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// What the generator knows about one handle.
#[derive(Clone, Default)]
pub struct Sim {
    pub keys: BTreeSet<u32>,
}
impl Sim {
    pub fn apply(&mut self, s: &Step) {
        match s.c {
            Code::Load | Code::Collect | Code::FromMap => {
                self.keys = sorted_load(s.a, s.b, s.s as u32).into_iter().collect();
            }
            Code::Extend => {
                self.keys.extend(sorted_load(s.a, s.b, s.s as u32));
            }
            Code::Append => {
                self.keys.extend(sorted_load(s.a, s.b, (s.s & 0xffff) as u32));
            }
            Code::Insert | Code::WVacant => {
                self.keys.insert(s.a.min(MAXKEY - 1));
            }
            Code::Remove => {
                self.keys.remove(&s.a);
            }
            Code::PopOne => {
                if s.a == 0 {
                    self.keys.pop_first();
                } else {
                    self.keys.pop_last();
                }
            }
            _ => {
                let ms = expand(s, &mut self.keys.iter());
                for m in ms {
                    match m {
                        Micro::Ins(k, v) => {
                            if v != 5 {
                                self.keys.insert(k);
                            }
                        }
                        Micro::Rem(k, _) => {
                            self.keys.remove(&k);
                        }
                        Micro::PopLo => {
                            self.keys.pop_first();
                        }
                        Micro::PopHi => {
                            self.keys.pop_last();
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Prof {
    pub b: u32,
    pub l: u32,
    /// largest number of entries a case may hold
    pub max_n: u32,
    /// 1 = normal; smaller for interpreters and sanitizers
    pub small: bool,
    /// keys and values are Copy (borrowed merging is available)
    pub copy: bool,
}

/// Generator of one history.
pub struct Gen {
    pub r: Rng,
    pub p: Prof,
    pub sims: Vec<Sim>,
    pub hot: Vec<u32>,
    pub out: Vec<Step>,
    /// size scale of this case
    pub n: u32,
    /// allow insert_recursive in setup
    pub rec: bool,
}
impl Gen {
    pub fn new(seed: u64, p: Prof, slots: usize) -> Gen {
        let mut r = Rng::new(seed);
        let levels: [u64; 4] = [
            p.l as u64 * 3,
            p.l as u64 * p.b as u64 * 2,
            p.l as u64 * (p.b as u64).pow(2) * 2,
            p.l as u64 * (p.b as u64).pow(3) * 2,
        ];
        let lv = levels[r.weighted(&[25, 35, 28, 12])].min(p.max_n as u64) as u32;
        let n = if r.chance(1, 3) { r.logsize(lv) } else { lv / 2 + r.below(lv as u64 / 2 + 1) as u32 };
        let rec = r.chance(1, 2);
        Gen {
            r,
            p,
            sims: vec![Sim::default(); slots],
            hot: vec![0, 1],
            out: Vec::new(),
            n: n.max(1),
            rec,
        }
    }
    pub fn push(&mut self, s: Step) {
        self.sims[s.h as usize].apply(&s);
        self.out.push(s);
    }
    /// A step the simulation does not need to follow.
    pub fn raw(&mut self, s: Step) {
        self.out.push(s);
    }
    fn heat(&mut self, k: i64) {
        if !(0..MAXKEY as i64).contains(&k) {
            return;
        }
        let k = k as u32;
        if self.hot.len() < 48 {
            self.hot.push(k)
        } else {
            let i = self.r.below(48) as usize;
            self.hot[i] = k;
        }
    }
    fn heat3(&mut self, k: u32) {
        for d in [-1, 0, 1] {
            self.heat(k as i64 + d);
        }
    }
    /// A key worth probing: block edges, live keys, neighbours, extremes.
    pub fn key(&mut self, h: u8) -> u32 {
        let sim = &self.sims[h as usize].keys;
        let x = match self.r.weighted(&[45, 25, 15, 10, 5]) {
            0 => *self.r.pick(&self.hot) as i64,
            1 | 2 if !sim.is_empty() => {
                let lo = *sim.first().unwrap() as u64;
                let hi = *sim.last().unwrap() as u64;
                let p = lo + self.r.below(hi - lo + 1);
                *sim.range(p as u32..).next().unwrap() as i64
            }
            3 => {
                if let (Some(a), Some(b)) = (sim.first(), sim.last()) {
                    *self.r.pick(&[*a as i64 - 1, *a as i64, *a as i64 + 1, *b as i64 - 1, *b as i64, *b as i64 + 1])
                } else {
                    5
                }
            }
            4 => *self.r.pick(&[0, 1, MAXKEY as i64 - 1, 1 << 20]),
            _ => self.r.below(4 * self.n as u64 + 4) as i64,
        };
        let d = if self.r.chance(1, 4) { self.r.range(-2, 2) } else { 0 };
        (x + d).clamp(0, MAXKEY as i64 - 1) as u32
    }
    pub fn ins_via(&mut self) -> u8 {
        match self.r.below(10) {
            0..=3 => 0,
            4 | 5 => {
                if self.rec {
                    1
                } else {
                    0
                }
            }
            6 => 2,
            7 => 3,
            8 => 4,
            _ => {
                if self.rec {
                    255
                } else {
                    254
                }
            }
        }
    }
    fn stride(&mut self) -> i32 {
        *self.r.pick(&[1, 2, 2, 3, 4, 10, 17])
    }
    /// Sizes that sit on node-capacity products.
    pub fn edgy(&mut self) -> u32 {
        let (b, l) = (self.p.b as i64, self.p.l as i64);
        let h = (l + 1) / 2;
        let g = (b + 1) / 2;
        let base = *self.r.pick(&[1, l, h, l * b, h * b, l * g, l * b * b, h * g * g, l * b * (b - 1), 2 * l, l * b * 2]);
        (base * self.r.range(1, 3) + self.r.range(-2, 2)).clamp(0, self.p.max_n as i64) as u32
    }
    /// First contents of a handle.
    pub fn seed_phase(&mut self, h: u8) {
        let n = if self.r.chance(1, 4) { self.edgy().min(self.n.max(8) * 2) } else { self.n };
        let start = 100 + self.r.below(200) as u32;
        let stride = self.stride();
        match self.r.weighted(&[40, 14, 9, 6, 6, 16, 5]) {
            0 => self.push(st(Code::Load, h, start, n, stride as u64)),
            1 => {
                let via = self.ins_via();
                self.push(st(Code::Fill, h, start, n, pack(stride, via)))
            }
            2 => {
                let via = self.ins_via();
                let top = start + n * stride as u32;
                self.push(st(Code::Fill, h, top, n, pack(-stride, via)))
            }
            3 => {
                let order = self.r.next() << 32;
                self.push(st(Code::Collect, h, start, n, stride as u64 | order))
            }
            4 => self.push(st(Code::FromMap, h, start, n, stride as u64)),
            5 => {
                let seed = self.r.next();
                let via = self.ins_via() as u64;
                let mut left = n;
                let mut i = 0;
                while left > 0 {
                    let m = left.min(60_000);
                    self.push(st(Code::Mix, h, start, n.saturating_mul(stride as u32), m as u64 | 255 << 16 | via << 24 | (seed ^ i) << 32));
                    left -= m;
                    i += 1;
                }
            }
            _ => {}
        }
        let ks: Vec<u32> = self.sims[h as usize].keys.iter().copied().collect();
        if !ks.is_empty() {
            for _ in 0..4 {
                let i = (self.r.below(ks.len() as u64 / self.p.l as u64 + 1) * self.p.l as u64) as usize;
                if i < ks.len() {
                    self.heat3(ks[i]);
                    if i > 0 {
                        self.heat3(ks[i - 1]);
                    }
                }
            }
            self.heat3(ks[0]);
            self.heat3(ks[ks.len() - 1]);
        }
    }
    /// A contiguous block of live keys, often aligned to whole leaves or branches.
    pub fn block(&mut self, h: u8) -> Option<(u32, u32)> {
        let len = self.sims[h as usize].keys.len() as u64;
        if len == 0 {
            return None;
        }
        let (b, l) = (self.p.b as u64, self.p.l as u64);
        let unit = *self.r.pick(&[1, l / 2, l, l, l * b / 2, l * b, l * b, l * b * b]);
        let unit = unit.max(1);
        let count = 1 + self.r.below(3);
        let at = if self.r.chance(1, 4) {
            // up against the right edge
            len.saturating_sub(unit * count)
        } else {
            self.r.below(len / unit + 1) * unit
        };
        let j0 = if self.r.chance(1, 3) { self.r.range(-2, 2) } else { 0 };
        let j1 = if self.r.chance(1, 3) { self.r.range(-2, 2) } else { 0 };
        let i0 = (at as i64 + j0).clamp(0, len as i64 - 1) as usize;
        let i1 = (at as i64 + (unit * count) as i64 - 1 + j1).clamp(i0 as i64, len as i64 - 1) as usize;
        let ks: Vec<u32> = self.sims[h as usize].keys.iter().copied().collect();
        self.heat3(ks[i0]);
        self.heat3(ks[i1]);
        if i0 > 0 {
            self.heat3(ks[i0 - 1]);
        }
        if i1 + 1 < ks.len() {
            self.heat3(ks[i1 + 1]);
        }
        let mid = ks[i0] / 2 + ks[i1] / 2;
        self.heat(mid as i64);
        Some((ks[i0], ks[i1]))
    }
    /// One mutation phase on handle `h`.
    pub fn phase(&mut self, h: u8) {
        let live = self.sims[h as usize].keys.len() as u32;
        if live == 0 && self.r.chance(3, 4) {
            return self.seed_phase(h);
        }
        match self.r.weighted(&[30, 18, 14, 8, 5, 6, 5, 3, 2, 3, 3, 6]) {
            0 => {
                if let Some((lo, hi)) = self.block(h) {
                    let order = self.r.below(3);
                    let via = *self.r.pick(&[0u64, 0, 1, 2, 254]);
                    let seed = self.r.next() & 0xffff_ffff;
                    self.push(st(Code::Drain, h, lo, hi, order | via << 8 | seed << 16));
                }
            }
            1 => {
                // refill a neighbourhood of a hot key densely
                let c = *self.r.pick(&self.hot);
                let n = self.r.logsize(self.p.l * 3).min(self.p.max_n);
                let stride = *self.r.pick(&[1, 1, 1, 2, -1, -1, -2]);
                let via = self.ins_via();
                let d = self.r.range(-3, 3);
                let a = (c as i64 + d).clamp(0, MAXKEY as i64 - 1) as u32;
                self.push(st(Code::Fill, h, a, n, pack(stride, via)));
                self.heat3(a);
                self.heat(a as i64 + n as i64 * stride as i64);
            }
            2 => {
                let c = *self.r.pick(&self.hot);
                let span = self.r.logsize(self.p.l * self.p.b * 4);
                let n = self.r.logsize((span * 2).min(self.p.max_n).min(if self.p.small { 60 } else { 3000 })) as u64;
                let bias = *self.r.pick(&[60u64, 128, 128, 200]);
                let via = self.ins_via() as u64;
                let seed = self.r.next();
                self.push(st(Code::Mix, h, c.saturating_sub(span / 2), span, n | bias << 16 | via << 24 | seed << 32));
            }
            3 => {
                let n = self.r.logsize(live.max(1));
                let e = self.r.below(3) as u32;
                self.push(st(Code::Pop, h, e, n, 0));
                if let (Some(a), Some(b)) = (
                    self.sims[h as usize].keys.first().copied(),
                    self.sims[h as usize].keys.last().copied(),
                ) {
                    self.heat3(a);
                    self.heat3(b);
                }
            }
            4 => {
                let m = 2 + self.r.below(self.p.l as u64 + 2) as u32;
                let ph = self.r.u32();
                let s = self.r.below(3);
                self.push(st(Code::Thin, h, m, ph, s));
            }
            5 => {
                // beyond the top
                let top = self.sims[h as usize].keys.last().copied().unwrap_or(50);
                let d = self.r.below(4) as u32;
                let n = self.r.logsize((self.p.l * self.p.b).min(self.p.max_n));
                let via = self.ins_via();
                let stride = self.stride();
                self.push(st(Code::Fill, h, top.saturating_add(d).min(MAXKEY - 1), n, pack(stride, via)));
                self.heat3(top);
            }
            6 => {
                let bot = self.sims[h as usize].keys.first().copied().unwrap_or(50);
                let n = self.r.logsize(self.p.l * 2);
                let via = self.ins_via();
                self.push(st(Code::Fill, h, bot, n, pack(-1, via)));
                self.heat3(bot);
            }
            7 => {
                let how = self.r.below(5) as u32;
                let s = self.r.next();
                self.push(st(Code::Empty, h, how, 0, s));
            }
            8 => self.seed_phase(h),
            9 => {
                let start = *self.r.pick(&self.hot);
                let n = self.r.logsize(self.n);
                let stride = self.stride() as u64;
                let side = self.r.below(2);
                self.push(st(Code::Append, h, start, n, stride | side << 16));
            }
            10 => self.push(st(Code::Reclone, h, 0, 0, 0)),
            _ => {
                // many at once, in any order: around a hot key, around the top, anywhere
                let n = self.r.logsize((self.p.l * self.p.b).min(self.p.max_n));
                let stride = self.stride() as u32;
                let top = self.sims[h as usize].keys.last().copied().unwrap_or(50);
                let c = match self.r.below(3) {
                    0 => *self.r.pick(&self.hot),
                    1 => top,
                    _ => top.saturating_sub(n * stride / 2),
                };
                let d = self.r.range(-3, 3);
                let a = (c as i64 + d).clamp(0, MAXKEY as i64 - 1) as u32;
                let order = self.r.next() << 32;
                self.push(st(Code::Extend, h, a, n, stride as u64 | order));
                self.heat3(a);
                self.heat3(a.saturating_add(n * stride));
            }
        }
        if self.sims[h as usize].keys.len() as u32 > self.p.max_n * 2 {
            let keep = self.p.max_n;
            let n = self.sims[h as usize].keys.len() as u32 - keep;
            self.push(st(Code::Pop, h, 1, n, 0));
        }
    }
    pub fn pat(&mut self) -> u64 {
        let mode = self.r.weighted(&[3, 3, 3, 4, 2, 2]) as u64;
        mode | (self.r.below(40) << 8) | (self.r.next() << 16)
    }
}

/// Front/back pattern for double-ended iterators.
pub struct Pat {
    mode: u64,
    n: u64,
    i: u64,
    r: Rng,
}
impl Pat {
    pub fn new(s: u64) -> Pat {
        Pat {
            mode: s & 0xff,
            n: s >> 8 & 0xff,
            i: 0,
            r: Rng::new(s),
        }
    }
    /// true = take from the front
    pub fn front(&mut self) -> bool {
        self.i += 1;
        match self.mode {
            0 => true,
            1 => false,
            2 => self.i % 2 == 0,
            3 => self.r.chance(1, 2),
            4 => self.i <= self.n,
            _ => self.i > self.n,
        }
    }
}
