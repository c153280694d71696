//! C04: vectors.
use crate::common::*;
use flatdata::{ArrayView, Vector};

macro_rules! reachable {
    (true, $e:expr) => {
        kani::cover!($e, "reachable")
    };
    (false, $e:expr) => {};
}

macro_rules! vectors {
    ($name:ident, $N:expr, $max:expr, $covers:tt) => {
        pub mod $name {
            use super::*;
            type V = Vector<Opaque<$N>>;

            /// Any vector: any length, and an arbitrary value at an arbitrary byte of its elements.
            pub struct Any {
                pub v: V,
                pub len: usize,
                pub pos: usize,
                pub byte: u8,
            }

            pub fn any_vector(reserve: bool) -> Any {
                let len: usize = kani::any();
                kani::assume(len < $max / $N);
                let mut v = V::with_len(len);
                let (pos, byte): (usize, u8) = (kani::any(), kani::any());
                if pos / $N < len {
                    v.at_mut(pos / $N).0[pos % $N] = byte;
                }
                // in particular: with any capacity
                if reserve {
                    let additional: usize = kani::any();
                    kani::assume(additional < $max / $N);
                    v.reserve(additional);
                }
                Any { v, len, pos, byte }
            }

            impl Any {
                /// Length, and the watched byte, as seen by all accessors.
                pub fn check(&self, len: usize) {
                    assert!(self.v.len() == len, "number of elements");
                    assert!(self.v.is_empty() == (len == 0), "is_empty");
                    assert!(self.v.size_in_bytes() == len * $N, "size in bytes");
                    assert!(self.v.as_bytes().len() == len * $N, "size of bytes");
                    if self.pos / $N < self.len {
                        assert!(self.v.as_bytes()[self.pos] == self.byte, "byte of an element, in bytes");
                        assert!(self.v.at(self.pos / $N).0[self.pos % $N] == self.byte, "byte of an element");
                    }
                }
            }

            #[kani::proof]
            #[kani::unwind(10)]
            fn with_len() {
                let len: usize = kani::any();
                kani::assume(len < $max / $N);
                let v = V::with_len(len);
                assert!(v.len() == len && v.as_bytes().len() == len * $N, "length");
                let pos: usize = kani::any();
                if pos < len * $N {
                    assert!(v.as_bytes()[pos] == 0, "zero-initialised");
                    assert!(v.at(pos / $N).0[pos % $N] == 0, "zero-initialised");
                }
                let (a, b) = (V::new(), V::default());
                assert!(a.len() == 0 && a.is_empty() && b.len() == 0 && a.as_bytes().is_empty(), "new is empty");
                reachable!($covers, pos < len * $N && pos > 50);
            }

            /// All accessors give the same elements.
            #[kani::proof]
            #[kani::unwind(10)]
            fn accessors() {
                let mut a = any_vector(false);
                a.check(a.len);
                let start = a.v.as_bytes().as_ptr() as usize;
                let bytes: &[u8] = a.v.as_ref();
                assert!(bytes.as_ptr() as usize == start && bytes.len() == a.len * $N, "as_ref");
                let view = a.v.as_view();
                assert!(view.as_bytes().as_ptr() as usize == start && view.as_bytes().len() == a.len * $N, "as_view");
                let view: ArrayView<Opaque<$N>> = (&a.v).into();
                assert!(view.as_bytes().as_ptr() as usize == start && view.as_bytes().len() == a.len * $N, "into view");
                let i: usize = kani::any();
                if i < a.len {
                    assert!(a.v.at(i).0.as_ptr() as usize == start + i * $N, "at");
                    assert!(a.v.at_mut(i).0.as_ptr() as usize == start + i * $N, "at_mut");
                }
                a.check(a.len);
                reachable!($covers, i < a.len && i > 50);
                reachable!($covers, a.len == 0);
            }

            #[cfg(any($covers, feature = "thorough"))]
            #[kani::proof]
            #[kani::unwind(12)]
            fn reserve() {
                let mut a = any_vector($covers);
                let additional: usize = kani::any();
                kani::assume(additional < $max / $N);
                a.v.reserve(additional);
                a.check(a.len);
                reachable!($covers, additional > 50);
            }

            #[kani::proof]
            #[kani::unwind(12)]
            fn clone() {
                let a = any_vector(false);
                let b = Any { v: a.v.clone(), ..a };
                b.check(a.len);
                let pos: usize = kani::any();
                if pos < a.len * $N && pos != a.pos {
                    assert!(b.v.as_bytes()[pos] == 0, "other bytes");
                }
            }
        }
    };
}

macro_rules! grows {
    ($name:ident, $f:ident, $N:expr, $unwind:expr, $spare:expr, $covers:tt) => {
        /// A vector with one more element, which is all zeros; the other ones are the same.
        #[kani::proof]
        #[kani::unwind($unwind)]
        fn $f() {
            let mut a = $name::any_vector($spare);
            let len = a.len;
            let values: [u8; $N] = kani::any();
            {
                let item = a.v.grow();
                assert!(item.0.len() >= $N, "size of the new element");
                let mut i = 0;
                while i < $N {
                    assert!(item.0[i] == 0, "new element is zero");
                    item.0[i] = values[i];
                    i += 1;
                }
            }
            a.check(len + 1);
            let i: usize = kani::any();
            if i < $N {
                assert!(a.v.as_bytes()[len * $N + i] == values[i], "new element is the last one");
            }
            reachable!($covers, len == 0);
            reachable!($covers, len > 50 && a.pos < len * $N);
        }
    };
}

// A counterexample or a witness of a huge vector takes forever to print, so these come first.
vectors!(size1, 1, 1024, true);
vectors!(size3, 3, 1024, true);
vectors!(size4, 4, 1024, true);
vectors!(size1_any, 1, MAX, false);
vectors!(size4_any, 4, MAX, false);
grows!(size1, grow1, 1, 3, false, true);
grows!(size1, grow1_spare, 1, 3, true, true);
#[cfg(feature = "thorough")]
grows!(size1_any, grow1_any, 1, 3, false, false);
grows!(size3, grow3, 3, 5, false, true);
grows!(size4, grow4, 4, 6, false, true);
