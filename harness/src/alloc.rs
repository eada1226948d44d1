//! Counting allocator: every block remembers who asked for it, so that the blocks a tree holds
//! can be told apart from those of the harness and of the elements.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub const HARNESS: u8 = 0;
pub const SUBJECT: u8 = 1;

thread_local! { static OWNER: Cell<u8> = const { Cell::new(HARNESS) }; }
static SUBJECT_BLOCKS: AtomicI64 = AtomicI64::new(0);
static SUBJECT_BYTES: AtomicI64 = AtomicI64::new(0);
/// All that was ever asked for.
static SUBJECT_TOTAL: AtomicI64 = AtomicI64::new(0);

pub struct Guard(u8);
impl Guard {
    pub fn enter(owner: u8) -> Guard {
        Guard(OWNER.try_with(|o| o.replace(owner)).unwrap_or(HARNESS))
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = OWNER.try_with(|o| o.set(self.0));
    }
}
/// Run `f` with allocations attributed to the tree under test.
pub fn subj<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::enter(SUBJECT);
    f()
}
/// Run `f` with allocations attributed to the harness (element payloads).
pub fn elem<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::enter(HARNESS);
    f()
}
pub fn blocks() -> i64 {
    SUBJECT_BLOCKS.load(Relaxed)
}
pub fn bytes() -> i64 {
    SUBJECT_BYTES.load(Relaxed)
}
pub fn total() -> i64 {
    SUBJECT_TOTAL.load(Relaxed)
}
pub fn reset() {
    SUBJECT_TOTAL.store(0, Relaxed);
    SUBJECT_BLOCKS.store(0, Relaxed);
    SUBJECT_BYTES.store(0, Relaxed);
}

/// Room before each block; far enough in for the system allocator's own notes in freed blocks to spare the mark.
const ROOM: usize = 64;
const FREED: u8 = 0xEE;

/// Not installed in sanitizer and Miri builds, whose own allocators must stay in charge.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = l.align().max(ROOM);
        let nl = match Layout::from_size_align(l.size() + pad, l.align().max(16)) {
            Ok(x) => x,
            Err(_) => return std::ptr::null_mut(),
        };
        let p = System.alloc(nl);
        if p.is_null() {
            return p;
        }
        let owner = OWNER.try_with(|o| o.get()).unwrap_or(HARNESS);
        let user = p.add(pad);
        *user.sub(1) = owner;
        if owner == SUBJECT {
            SUBJECT_BLOCKS.fetch_add(1, Relaxed);
            SUBJECT_BYTES.fetch_add(l.size() as i64, Relaxed);
            SUBJECT_TOTAL.fetch_add(l.size() as i64, Relaxed);
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let pad = l.align().max(ROOM);
        if *user.sub(1) == FREED {
            crate::elem::bad(5);
        }
        if *user.sub(1) == SUBJECT {
            SUBJECT_BLOCKS.fetch_sub(1, Relaxed);
            SUBJECT_BYTES.fetch_sub(l.size() as i64, Relaxed);
        }
        *user.sub(1) = FREED;
        System.dealloc(
            user.sub(pad),
            Layout::from_size_align_unchecked(l.size() + pad, l.align().max(16)),
        )
    }
}
#[cfg(not(any(miri, ptmon_san)))]
#[global_allocator]
static GLOBAL: Counting = Counting;
pub const COUNTING: bool = !cfg!(any(miri, ptmon_san));
