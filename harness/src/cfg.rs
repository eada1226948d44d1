//! Tree configurations.
use crate::elem::bad;
use palmtree::{PointerKind, TreeConfig};
use std::any::type_name;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ptr::NonNull;
use std::rc::Rc;
use typenum::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Unique,
    Shared,
    SyncShared,
    /// a user's own kind: counted, oddly laid out, and knowing what it points to
    Typed,
}
/// What a check needs to know about a configuration at run time.
pub trait Conf {
    const B: usize;
    const L: usize;
    const KIND: Kind;
}
pub trait KindOf: PointerKind + 'static {
    const KIND: Kind;
}
impl KindOf for palmtree::Unique {
    const KIND: Kind = Kind::Unique;
}
impl KindOf for palmtree::Shared {
    const KIND: Kind = Kind::Shared;
}
impl KindOf for palmtree::SyncShared {
    const KIND: Kind = Kind::SyncShared;
}
impl KindOf for Typed {
    const KIND: Kind = Kind::Typed;
}
/// A pointer kind that is not the library's: it shares like `Shared`, is larger than a pointer and more aligned,
/// and holds every use against the type it was made for.
#[repr(align(32))]
pub struct Typed {
    ptr: NonNull<()>,
    what: &'static str,
}
impl Typed {
    fn of<A>(data: Rc<A>) -> Self {
        let ptr = Rc::into_raw(data) as *mut ();
        Typed { ptr: unsafe { NonNull::new_unchecked(ptr) }, what: type_name::<A>() }
    }
    fn check<A>(&self) {
        let n = type_name::<A>();
        if !std::ptr::eq(n, self.what) && n != self.what && self.what != "*" {
            bad(if self.what.is_empty() { 8 } else { 7 });
        }
    }
    unsafe fn rc<A>(&self) -> ManuallyDrop<Rc<A>> {
        ManuallyDrop::new(Rc::from_raw(self.ptr.as_ptr() as *const A))
    }
}
impl PointerKind for Typed {
    unsafe fn new<A>(value: A) -> Self {
        Self::of(Rc::new(value))
    }
    unsafe fn into_raw<A>(self) -> NonNull<A> {
        self.ptr.cast()
    }
    unsafe fn from_raw<A>(ptr: NonNull<A>) -> Self {
        // a pointer that went through its raw form may have forgotten what it was
        Typed { ptr: ptr.cast(), what: "*" }
    }
    unsafe fn deref<A>(&self) -> &A {
        self.check::<A>();
        &*(self.ptr.as_ptr() as *const A)
    }
    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        self.check::<A>();
        let mut rc = self.rc::<A>();
        Rc::make_mut(&mut rc);
        self.ptr = NonNull::new_unchecked(Rc::into_raw(ManuallyDrop::into_inner(rc)) as *mut ());
        &mut *(self.ptr.as_ptr() as *mut A)
    }
    unsafe fn drop_ptr<A>(&mut self) {
        self.check::<A>();
        self.what = "";
        drop(Rc::from_raw(self.ptr.as_ptr() as *const A));
    }
    unsafe fn clone<A: Clone>(&self) -> Self {
        self.check::<A>();
        Self::of(Rc::clone(&*self.rc::<A>()))
    }
}
/// Branch capacity, leaf capacity, pointer kind.
pub struct Cfg<B, L, P>(PhantomData<(B, L, P)>);
macro_rules! cfgs {
    ($(($b:ty, $l:ty)),* $(,)?) => { $(
        impl<K, V, P: KindOf> TreeConfig<K, V> for Cfg<$b, $l, P> {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = P;
        }
        impl<P: KindOf> Conf for Cfg<$b, $l, P> {
            const B: usize = <$b as Unsigned>::USIZE;
            const L: usize = <$l as Unsigned>::USIZE;
            const KIND: Kind = P::KIND;
        }
    )* }
}
cfgs!(
    (U4, U4), (U5, U5), (U4, U5), (U5, U4), (U4, U9), (U7, U4), (U6, U6), (U4, U64), (U64, U4),
    (U8, U16), (U16, U16), (U15, U17), (U32, U32), (U33, U31), (U64, U64), (U256, U256),
    (U512, U16), (U16, U512), (U256, U4), (U512, U5), (U128, U8), (U4, U65536), (U65536, U4),
);
/// The shipped configuration.
impl<P: KindOf> Conf for palmtree::Tree64<P> {
    const B: usize = 64;
    const L: usize = 64;
    const KIND: Kind = P::KIND;
}
pub use palmtree::{Shared, SyncShared, Tree64, Unique};
pub use typenum::{U15, U16, U128, U17, U256, U31, U32, U33, U4, U5, U512, U6, U64, U65536, U7, U8, U9};
