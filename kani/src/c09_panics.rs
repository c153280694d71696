//! C09: calls which have to panic, in release builds as well. Cf. C05.
use crate::c09_view::*;
use crate::common::*;
use flatdata::{ArrayView, MultiArrayView, VariadicStruct};

const LIMIT: usize = 1 << 34;

/// Bucket behind the last one.
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn at_panics() {
    let s = any_view::<Idx>(LIMIT);
    let i: usize = kani::any();
    kani::assume(i >= s.len);
    s.view.at(i);
    unreachable_place();
}
/// With an offset which is inside of the index after wrapping around.
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn at_wraps_panics() {
    let s = any_view::<Idx>(LIMIT);
    let i: usize = kani::any();
    kani::assume(i > s.len && (i.wrapping_mul(I) / I < s.len || i == usize::max_value()));
    s.view.at(i);
    unreachable_place();
}
/// Entries of the index which are not in order, or not inside of the data.
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn bucket_panics() {
    let s = any_view::<Idx>(LIMIT);
    let i: usize = kani::any();
    kani::assume(i < s.len);
    let (start, end) = (s.entry(i), s.entry(i + 1));
    kani::assume(start > end || end > s.data.len());
    s.view.at(i);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn slice_panics() {
    let s = any_view::<Idx>(LIMIT);
    let range = any_range();
    let (start, end) = ends(&range, s.len);
    kani::assume(start > end || end > s.len as u128);
    s.view.slice(range);
    unreachable_place();
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn slice_wraps_panics() {
    let s = any_view::<Idx>(LIMIT);
    let range = any_range();
    let (start, end) = ends(&range, s.len);
    kani::assume(start > end || end > s.len as u128);
    let (first, last) = ((start as usize).wrapping_mul(I), (end as usize).wrapping_add(1).wrapping_mul(I));
    kani::assume(first <= last && last <= s.index.len());
    s.view.slice(range);
    unreachable_place();
}
/// An item which ends behind its bucket.
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn item_panics() {
    let s = any_view::<Idx>(LIMIT);
    let i: usize = kani::any();
    kani::assume(i < s.len);
    let (start, end) = s.bucket(i);
    kani::assume(start < end && unsafe { SIZE } > end - start - 1);
    s.view.at(i).next();
    unreachable_place();
}
/// A tag of no type.
#[kani::proof]
#[kani::unwind(10)]
#[kani::should_panic]
fn tag_panics() {
    let tag: u8 = kani::any();
    kani::assume(tag != 0 && tag != 1 && tag != 7);
    V::create(tag, buffer(16));
    unreachable_place();
}
