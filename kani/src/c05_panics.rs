//! C05: calls which have to panic, in release builds as well.
//!
//! The verifier checks arithmetic for overflow, like debug builds. Where such a check is what panics
//! (only), its counterexample is executed by a build without the check. Harnesses `.._wraps_panics`
//! are for the indices whose offsets are inside of the data after wrapping around.
use crate::common::*;
use flatdata::ArrayView;

macro_rules! panics {
    ($name:ident, $N:expr, $max:expr) => {
        pub mod $name {
            use super::*;

            fn any_view() -> (usize, ArrayView<'static, Opaque<$N>>) {
                let len: usize = kani::any();
                kani::assume(len < $max);
                (len / $N, ArrayView::new(buffer(len)))
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_panics() {
                let (len, view) = any_view();
                let index: usize = kani::any();
                kani::assume(index >= len);
                view.at(index);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_wraps_panics() {
                let (len, view) = any_view();
                let index: usize = kani::any();
                kani::assume(index >= len && ($N == 1 || index.wrapping_mul($N) / $N < len));
                view.at(index);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn slice_wraps_panics() {
                let (len, view) = any_view();
                let range = any_range();
                let (start, end) = ends(&range, len);
                kani::assume(start > end || end > len as u128);
                let (first, last) = (start as usize, end as usize);
                kani::assume(first.wrapping_mul($N) <= last.wrapping_mul($N));
                kani::assume(last.wrapping_mul($N) <= view.as_bytes().len());
                view.slice(range);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn slice_panics() {
                let (len, view) = any_view();
                let range = any_range();
                let (start, end) = ends(&range, len);
                kani::assume(start > end || end > len as u128);
                view.slice(range);
                unreachable_place();
            }
        }
    };
}
panics!(size1, 1, MAX);
panics!(size4, 4, MAX);
panics!(size8, 8, MAX);
