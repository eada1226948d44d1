//! Case loop: generation, execution with a crash journal, shrinking, summary.
use crate::cfg::{Conf, Kind};
use crate::elem::*;
use crate::hist::*;
use crate::interp::*;
use crate::rng::hash2;
use palmtree::TreeConfig;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

// ---------------------------------------------------------------- panics

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let _g = crate::alloc::Guard::enter(crate::alloc::HARNESS);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(injected)".to_string()
        };
        let loc = info.location().map_or(String::new(), |l| {
            let f = l.file().rsplit('/').next().unwrap_or("");
            format!(" at {}:{}", f, l.line())
        });
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("fatal: {}{}", msg, loc);
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

// ---------------------------------------------------------------- journal

static JFD: AtomicI32 = AtomicI32::new(-1);
static JCASE: AtomicU64 = AtomicU64::new(0);
/// Note in the journal what is about to run, so that a crash or a hang can be attributed.
#[cfg(not(miri))]
pub fn journal(step: usize, own: bool, what: &str) {
    use std::os::unix::fs::FileExt;
    let fd = JFD.load(Relaxed);
    if fd < 0 {
        return;
    }
    let s = format!("{:>12} {:>6} {} {:<40}\n", JCASE.load(Relaxed), step, own as u8, what);
    use std::os::fd::FromRawFd;
    let f = ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = f.write_at(s.as_bytes(), 0);
}
#[cfg(miri)]
pub fn journal(_: usize, _: bool, _: &str) {}
/// Note an event that has been observed, in case nobody gets round to judging it.
#[cfg(not(miri))]
pub fn journal_note(what: &str) {
    use std::os::unix::fs::FileExt;
    let fd = JFD.load(Relaxed);
    if fd >= 0 {
        use std::os::fd::FromRawFd;
        let f = ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        let _ = f.write_at(format!("NOTE {:>12} {}\n", JCASE.load(Relaxed), what).as_bytes(), 256);
    }
}
#[cfg(miri)]
pub fn journal_note(_: &str) {}

// ---------------------------------------------------------------- cases

#[derive(Clone)]
pub struct Case {
    pub combo: usize,
    pub steps: Vec<Step>,
    /// further parameter of the check's own
    pub x: u64,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub step: usize,
    pub msg: String,
}
#[derive(Default)]
pub struct Out {
    pub fail: Option<Fail>,
    /// the case could not be judged: something outside this property went wrong
    pub foreign: Option<Fail>,
    pub stats: Stats,
    pub log: Vec<u64>,
}
pub struct Spec {
    pub id: &'static str,
    pub combos: Vec<Combo>,
    /// (combos, case seed, sizes scale) -> case
    pub gen: fn(&[Combo], u64, u64) -> Case,
    pub exec: fn(&[Combo], &Case) -> Out,
    /// one case in so many (per process) is a giant: beyond 65536 entries (0: none)
    pub giant: u64,
}

/// One monomorphic instance of the interpreter.
pub struct Combo {
    pub name: String,
    pub b: u32,
    pub l: u32,
    pub kind: Kind,
    pub weight: u32,
    pub max_n: u32,
    /// bytes of a key and a value
    pub entry: usize,
    pub copy: bool,
    pub run: fn(&[Step], Opt) -> Out,
}
#[derive(Clone, Copy)]
pub struct Opt {
    pub own: u64,
    /// results are judged (otherwise only memory events are)
    pub judge: bool,
    pub mode: Mode,
    pub slots: usize,
    pub combo: u64,
    /// panics in own steps are violations
    pub panics: bool,
    pub lawless: u8,
    /// first step that sees the inconsistent ordering
    pub lawless_from: usize,
    pub lawless_seed: u64,
}
impl Opt {
    pub fn new(own: u64, mode: Mode, slots: usize) -> Opt {
        Opt {
            own,
            judge: true,
            mode,
            slots,
            combo: 0,
            panics: true,
            lawless: 0,
            lawless_from: 0,
            lawless_seed: 0,
        }
    }
    pub fn memory(slots: usize) -> Opt {
        Opt {
            judge: false,
            panics: false,
            ..Opt::new(ALL, Mode::Plain, slots)
        }
    }
}
pub fn is_memory_panic(m: &str) -> bool {
    m.contains("MISALIGNED") || m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer dereference")
}

pub fn run_world<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(
    steps: &[Step],
    o: Opt,
    refops: Option<RefOps<K, V, C>>,
) -> Out {
    let mut out = Out::default();
    ledger_reset();
    crate::alloc::reset();
    let mut w = ManuallyDrop::new(World::<K, V, C>::new(o.slots, if o.judge { o.own } else { 0 }, o.mode, refops));
    w.combo = o.combo;
    w.free = !o.judge;
    set_free(!o.judge);
    disarm();
    for (i, st) in steps.iter().enumerate() {
        if o.lawless != 0 && i == o.lawless_from {
            set_lawless(o.lawless, o.lawless_seed);
        }
        let own = o.own >> st.c as u8 & 1 == 1;
        // before the ordering turns inconsistent, a crash is somebody else's business
        let lawful = o.lawless != 0 && i < o.lawless_from && !steps[..=i].iter().any(|s| s.c == Code::LoadAny);
        journal(i, own && !lawful, st.c.name());
        let r = catch_unwind(AssertUnwindSafe(|| w.step(st)));
        let mem = if o.judge { None } else { ledger_bad() };
        if let Some(m) = mem {
            out.fail = Some(Fail { step: i, msg: format!("{}: {}", st.text(), m) });
            break;
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => {
                let f = Fail { step: i, msg: format!("{}: {}", st.text(), msg) };
                if own {
                    out.fail = Some(f)
                } else {
                    out.foreign = Some(f)
                }
                break;
            }
            Err(_) => {
                let m = last_panic();
                disarm();
                let f = Fail { step: i, msg: format!("{}: panicked: {}", st.text(), m) };
                if o.mode == Mode::Isolation {
                    // whatever happened to this handle, the others must not have noticed
                    let k = st.h as usize % w.slots.len();
                    let oo = st.a as usize % w.slots.len();
                    if let Ok(Err(e)) = catch_unwind(AssertUnwindSafe(|| w.isolation(st, k, oo))) {
                        out.fail = Some(Fail { step: i, msg: format!("{}: panicked ({}), and {}", st.text(), m, e) });
                        break;
                    }
                }
                let endless = o.mode == Mode::Cost && m.starts_with("(injected)");
                if !o.judge && is_memory_panic(&m) || own && o.panics && o.judge || own && endless {
                    out.fail = Some(f);
                    break;
                }
                out.foreign = Some(f);
                if !o.judge || o.mode == Mode::Log {
                    // carry on with what is left of the trees, as a program that catches panics would
                    if o.mode == Mode::Log {
                        w.log.push(0xdead);
                    }
                    let n = w.slots.len();
                    for s in 0..n {
                        w.slots[s].model.clear();
                        let shown = catch_unwind(AssertUnwindSafe(|| w.shown(s))).unwrap_or_default();
                        w.slots[s].model = shown.into_iter().map(|e| (e.0, (e.1, e.2))).collect();
                    }
                    continue;
                }
                break;
            }
        }
        if matches!(st.c, Code::Fill | Code::Drain | Code::Mix | Code::Pop | Code::Thin | Code::Load | Code::Append | Code::Extend) && i % 2 == 0 {
            if o.judge {
                w.shape();
            }
        }
    }
    set_lawless(0, 0);
    set_free(false);
    disarm();
    out.stats = std::mem::take(&mut w.stats);
    out.log = std::mem::take(&mut w.log);
    if out.fail.is_none() && out.foreign.is_none() {
        // End has emptied it already
        unsafe { ManuallyDrop::drop(&mut w) }
    }
    out
}

#[macro_export]
macro_rules! combo {
    ($k:ty, $v:ty, $c:ty, $w:expr, $n:expr) => {{
        fn run(s: &[$crate::hist::Step], o: $crate::runner::Opt) -> $crate::runner::Out {
            $crate::runner::run_world::<$k, $v, $c>(s, o, None)
        }
        $crate::runner::mk_combo::<$k, $v, $c>($w, $n, false, run)
    }};
    (copy $k:ty, $v:ty, $c:ty, $w:expr, $n:expr) => {{
        fn run(s: &[$crate::hist::Step], o: $crate::runner::Opt) -> $crate::runner::Out {
            $crate::runner::run_world::<$k, $v, $c>(s, o, Some($crate::interp::refops::<$k, $v, $c>()))
        }
        $crate::runner::mk_combo::<$k, $v, $c>($w, $n, true, run)
    }};
}
pub fn mk_combo<K: Key, V: Val, C: Conf>(weight: u32, max_n: u32, copy: bool, run: fn(&[Step], Opt) -> Out) -> Combo {
    Combo {
        name: format!("{}x{}-{:?}-{}-{}", C::B, C::L, C::KIND, K::NAME, V::NAME),
        b: C::B as u32,
        l: C::L as u32,
        kind: C::KIND,
        weight,
        max_n,
        entry: std::mem::size_of::<K>() + std::mem::size_of::<V>(),
        copy,
        run,
    }
}
/// Choose a combination and start a generator for it.
pub fn start(combos: &[Combo], seed: u64, big: u64, slots: usize) -> (usize, Gen) {
    let ws: Vec<u32> = combos.iter().map(|c| c.weight).collect();
    let mut r = crate::rng::Rng::new(seed);
    let i = r.weighted(&ws);
    let c = &combos[i];
    let small = cfg!(miri);
    // thorough runs mix in larger trees
    let (giant, big) = (big & GIANT > 0, big & !GIANT);
    let scale = if big > 1 && r.chance(1, 3) { big } else { 1 };
    let max_n = if small { 40 } else { (c.max_n as u64 * scale) as u32 };
    let p = Prof { b: c.b, l: c.l, max_n, small: small || cfg!(ptmon_san), copy: c.copy };
    if giant && !p.small && c.entry <= 64 {
        let most = if r.chance(1, 4) { 200_000 } else { 40_000 };
        let n = 66_000 + r.below(most) as u32;
        let mut g = Gen::new(r.next(), Prof { max_n: n, ..p }, slots);
        g.n = n;
        return (i, g);
    }
    (i, Gen::new(r.next(), p, slots))
}
const GIANT: u64 = 1 << 40;

// ---------------------------------------------------------------- output

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn case_text(spec: &Spec, c: &Case, note: &str) -> String {
    let mut s = format!("check {}\ncombo {}\nx {}\n", spec.id, spec.combos[c.combo].name, c.x);
    for l in note.lines() {
        s.push_str(&format!("# {}\n", l));
    }
    for st in &c.steps {
        s.push_str(&st.text());
        s.push('\n');
    }
    s
}
fn parse_case(spec: &Spec, text: &str) -> Case {
    let mut c = Case { combo: 0, steps: Vec::new(), x: 0 };
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("combo ") {
            c.combo = spec.combos.iter().position(|x| x.name == n).unwrap_or_else(|| {
                eprintln!("no combo {}", n);
                std::process::exit(9)
            });
        } else if let Some(n) = l.strip_prefix("x ") {
            c.x = n.parse().unwrap_or(0);
        } else if let Some(s) = Step::parse(l) {
            c.steps.push(s);
        }
    }
    c
}

fn shrink(spec: &Spec, case: &Case, fail: &Fail, secs: f64) -> (Case, Fail) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut bf = fail.clone();
    let cut = |c: &mut Case, f: &Fail| c.steps.truncate(f.step + 1);
    {
        let mut c = best.clone();
        cut(&mut c, &bf);
        if let Some(f) = (spec.exec)(&spec.combos, &c).fail {
            best = c;
            bf = f;
        }
    }
    let mut chunk = best.steps.len() / 2;
    while t0.elapsed().as_secs_f64() < secs {
        let mut progress = false;
        if chunk > 0 {
            let mut i = 0;
            while i < best.steps.len() && t0.elapsed().as_secs_f64() < secs {
                let mut c = best.clone();
                let e = (i + chunk).min(c.steps.len());
                c.steps.drain(i..e);
                match (spec.exec)(&spec.combos, &c).fail {
                    Some(f) => {
                        cut(&mut c, &f);
                        best = c;
                        bf = f;
                        progress = true;
                    }
                    None => i += chunk,
                }
            }
            if chunk > 1 {
                chunk /= 2;
                continue;
            }
        }
        // smaller numbers
        for i in 0..best.steps.len() {
            loop {
                if i >= best.steps.len() || t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                let s = best.steps[i];
                let mut any = false;
                if matches!(s.c, Code::Fill | Code::Load | Code::Collect | Code::FromMap | Code::Append | Code::Extend | Code::Pop) && s.b > 1 {
                    for nb in [s.b / 2, s.b * 7 / 8, s.b - 1] {
                        let mut c = best.clone();
                        c.steps[i].b = nb;
                        if let Some(f) = (spec.exec)(&spec.combos, &c).fail {
                            cut(&mut c, &f);
                            best = c;
                            bf = f;
                            any = true;
                            progress = true;
                            break;
                        }
                    }
                }
                if !any {
                    break;
                }
            }
        }
        if !progress {
            break;
        }
    }
    (best, bf)
}

pub fn main(spec: Spec) {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let seed = num("--seed", 1);
    let big = num("--big", 1);
    let case_of = |i: u64| {
        let giant = spec.giant > 0 && (i / 8) % spec.giant == spec.giant / 4 && !cfg!(any(miri, ptmon_san));
        (spec.gen)(&spec.combos, hash2(seed, hash2(i, spec.id.bytes().fold(7, |a, b| hash2(a, b as u64)))), if giant { big | GIANT } else { big })
    };

    #[cfg(not(miri))]
    if let Some(j) = opt("--journal") {
        use std::os::fd::IntoRawFd;
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(j).unwrap();
        JFD.store(f.into_raw_fd(), Relaxed);
    }
    if let Some(i) = opt("--emit") {
        print!("{}", case_text(&spec, &case_of(i.parse().unwrap()), ""));
        return;
    }
    if let Some(f) = opt("--replay") {
        let case = parse_case(&spec, &std::fs::read_to_string(f).unwrap());
        let out = (spec.exec)(&spec.combos, &case);
        if let Some(f) = out.fail {
            println!("REPLAY fail step {} {}", f.step, f.msg);
            std::process::exit(3);
        }
        if let Some(f) = out.foreign {
            println!("REPLAY foreign step {} {}", f.step, f.msg);
            return;
        }
        println!("REPLAY ok {}", out.log.iter().fold(0, |a, x| hash2(a, *x)));
        return;
    }
    if let Some(i) = opt("--one") {
        // one case, by number
        JCASE.store(i.parse().unwrap(), Relaxed);
        let out = (spec.exec)(&spec.combos, &case_of(i.parse().unwrap()));
        println!("{:?} {:?}", out.fail, out.foreign);
        std::process::exit(if out.fail.is_some() { 3 } else { 0 });
    }

    let (from, stride, max) = (num("--from", 0), num("--stride", 1), num("--max", 100));
    let secs = num("--secs", 3600) as f64;
    let t0 = Instant::now();
    let mut total = Stats::default();
    let mut cases = 0u64;
    let mut judged = 0u64;
    let mut foreign: Vec<String> = Vec::new();
    let mut nforeign = 0u64;
    let mut fails: Vec<String> = Vec::new();
    let mut per_combo = vec![0u64; spec.combos.len()];
    let mut samples: Vec<String> = Vec::new();
    let write_out = |body: &str| {
        if let Some(o) = opt("--out") {
            let mut f = std::fs::File::create(&o).unwrap();
            f.write_all(body.as_bytes()).unwrap();
        } else {
            println!("{}", body);
        }
    };
    let mut i = from;
    let mut n = 0;
    while n < max && t0.elapsed().as_secs_f64() < secs {
        JCASE.store(i, Relaxed);
        if cfg!(miri) {
            eprintln!("CASE {}", i);
        }
        let case = case_of(i);
        per_combo[case.combo] += 1;
        let out = (spec.exec)(&spec.combos, &case);
        cases += 1;
        total.merge(out.stats);
        if let Some(f) = out.fail {
            let v = |c: &Case, f: &Fail, shrunk: bool| {
                format!(
                    "{{\"case\":{},\"combo\":{},\"msg\":{},\"step\":{},\"shrunk\":{},\"text\":{}}}",
                    i,
                    jstr(&spec.combos[c.combo].name),
                    jstr(&f.msg),
                    f.step,
                    shrunk,
                    jstr(&case_text(&spec, c, &f.msg))
                )
            };
            let first = v(&case, &f, false);
            write_out(&format!("{{\"violations\":[{}],\"partial\":true}}", first));
            let (c, f) = shrink(&spec, &case, &f, 6.0);
            fails.push(v(&c, &f, true));
            break;
        }
        if let Some(f) = out.foreign {
            nforeign += 1;
            if foreign.len() < 4 {
                foreign.push(format!("{}: {}", spec.combos[case.combo].name, f.msg));
            }
        } else {
            judged += 1;
            if samples.len() < 2 && n % 7 == 0 {
                let st: Vec<String> = case.steps.iter().take(14).map(|s| s.text()).collect();
                samples.push(format!(
                    "{{\"case\":{},\"combo\":{},\"steps\":{},\"first_steps\":{}}}",
                    i,
                    jstr(&spec.combos[case.combo].name),
                    case.steps.len(),
                    jstr(&st.join("; "))
                ));
            }
        }
        i += stride;
        n += 1;
    }
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    let own: Vec<String> = total.own.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let worst: Vec<String> = total.worst.iter().map(|(k, v)| format!("{}:[{},{}]", jstr(k), v.0, v.1)).collect();
    let pc: Vec<String> = spec.combos.iter().zip(&per_combo).map(|(c, n)| format!("{}:{}", jstr(&c.name), n)).collect();
    let hx = |s: &std::collections::HashSet<u64>| s.iter().map(|x| format!("\"{:x}\"", x & 0xffff_ffff_ffff)).collect::<Vec<_>>().join(",");
    write_out(&format!(
        "{{\"violations\":[{}],\"partial\":false,\"cases\":{},\"judged\":{},\"inconclusive\":{},\"foreign\":[{}],\"own\":{{{}}},\"calls\":{},\"items\":{},\"faults\":{},\"max_height\":{},\"max_entries\":{},\"stale\":{},\"worst\":{{{}}},\"combos\":{{{}}},\"samples\":[{}],\"shapes\":[{}],\"sigs\":[{}]}}",
        fails.join(","),
        cases,
        judged,
        nforeign,
        list(&foreign),
        own.join(","),
        total.micro,
        total.items,
        total.faults,
        total.max_height,
        total.max_entries,
        total.stale,
        worst.join(","),
        pc.join(","),
        samples.join(","),
        hx(&total.shapes),
        hx(&total.sigs)
    ));
    if !fails.is_empty() {
        std::process::exit(3);
    }
}
