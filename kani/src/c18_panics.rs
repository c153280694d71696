//! C18: dropping what is not closed, in release builds as well.
use crate::c18_drop::*;
use crate::common::*;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::{ExternalVector, MultiVector};

define_index!(Idx, RefIdx, RefMutIdx, "index", 8, 64);
define_struct!(A, RefA, RefMutA, "a", 4, (x, set_x, u32, 0, 32));
define_variadic_struct!(V, RefV, BuilderV, Idx, 0 => (A, add_a));

#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn new_handle_panics() {
    let s = storage();
    let h = handle(&s);
    drop(h);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn handle_panics() {
    let s = storage();
    let mut h = handle(&s);
    h.write(buffer(kani::any())).good();
    drop(h);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn new_vector_panics() {
    let s = storage();
    let v = ExternalVector::<Opaque<4>>::new(handle(&s));
    drop(v);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn vector_panics() {
    let s = storage();
    let mut h = handle(&s);
    // with what is flushed
    h.write(buffer(kani::any())).good();
    let mut v = ExternalVector::<Opaque<4>>::new(h);
    v.grow().good();
    drop(v);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn new_multivector_panics() {
    let s = storage();
    let v = MultiVector::<Idx, V>::new(ExternalVector::new(index_handle(&s)), handle(&s));
    drop(v);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn multivector_panics() {
    let s = storage();
    let mut v = MultiVector::<Idx, V>::new(ExternalVector::new(index_handle(&s)), handle(&s));
    v.grow().good().add_a();
    drop(v);
    unreachable_place();
}
