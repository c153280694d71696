//! C04: access behind the last element has to panic, in release builds as well (cf. `c05_panics`).
use crate::common::*;
use flatdata::Vector;

macro_rules! panics {
    ($name:ident, $N:expr, $max:expr) => {
        pub mod $name {
            use super::*;
            type V = Vector<Opaque<$N>>;

            fn any_vector() -> (usize, V) {
                let len: usize = kani::any();
                kani::assume(len < $max / $N);
                (len, V::with_len(len))
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_panics() {
                let (len, v) = any_vector();
                let index: usize = kani::any();
                kani::assume(index >= len);
                v.at(index);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_mut_panics() {
                let (len, mut v) = any_vector();
                let index: usize = kani::any();
                kani::assume(index >= len);
                v.at_mut(index);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_wraps_panics() {
                let (len, v) = any_vector();
                let index: usize = kani::any();
                kani::assume(index >= len && ($N == 1 || index.wrapping_mul($N) / $N < len + 2));
                v.at(index);
                unreachable_place();
            }

            #[kani::proof]
            #[kani::should_panic]
            fn at_mut_wraps_panics() {
                let (len, mut v) = any_vector();
                let index: usize = kani::any();
                kani::assume(index >= len && ($N == 1 || index.wrapping_mul($N) / $N < len + 2));
                v.at_mut(index);
                unreachable_place();
            }
        }
    };
}
panics!(size1, 1, 1024);
panics!(size4, 4, 1024);
panics!(size8, 8, 1024);
