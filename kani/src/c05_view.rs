//! C05: access to elements of array views.
use crate::common::*;
use flatdata::ArrayView;

macro_rules! views {
    ($name:ident, $N:expr, $max:expr) => {
        pub mod $name {
            use super::*;
            type View = ArrayView<'static, Opaque<$N>>;

            fn any_data() -> &'static [u8] {
                let len: usize = kani::any();
                kani::assume(len < $max);
                buffer(len)
            }

            #[cfg_attr(feature = "contracts", kani::proof_for_contract(flatdata::ArrayView::<Opaque<$N>>::len))]
            #[cfg_attr(not(feature = "contracts"), kani::proof)]
            fn len() {
                let data = any_data();
                let view = View::new(data);
                let len = view.len();
                assert!(len == data.len() / $N, "number of elements");
                kani::cover!(len == 0 && data.len() > 0 || $N == 1);
                kani::cover!(len > 500);
            }

            #[kani::proof]
            fn bytes() {
                let data = any_data();
                let view = View::new(data);
                assert!(view.as_bytes().as_ptr() == data.as_ptr() && view.as_bytes().len() == data.len(), "bytes");
                let bytes: &[u8] = view.as_ref();
                assert!(bytes.as_ptr() == data.as_ptr() && bytes.len() == data.len(), "bytes");
                assert!(view.is_empty() == (data.len() < $N), "is_empty");
            }

            #[cfg_attr(feature = "contracts", kani::proof_for_contract(flatdata::ArrayView::<Opaque<$N>>::at))]
            #[cfg_attr(not(feature = "contracts"), kani::proof)]
            fn at() {
                let data = any_data();
                let view = View::new(data);
                let index: usize = kani::any();
                kani::assume(index < data.len() / $N);
                let item = view.at(index);
                assert!(item.0.as_ptr() == data[index * $N..].as_ptr(), "element at the index");
                kani::cover!(index == 0);
                kani::cover!(index > 500 && index == data.len() / $N - 1);
            }

            #[cfg_attr(feature = "contracts", kani::proof_for_contract(flatdata::ArrayView::<Opaque<$N>>::slice))]
            #[cfg_attr(not(feature = "contracts"), kani::proof)]
            fn slice() {
                let data = any_data();
                let view = View::new(data);
                let range = any_range();
                let (start, end) = ends(&range, data.len() / $N);
                kani::assume(start <= end && end <= (data.len() / $N) as u128);
                let slice = view.slice(range);
                let bytes = slice.as_bytes();
                assert!(bytes.len() / $N == (end - start) as usize, "number of elements in the range");
                if start < end {
                    assert!(bytes.as_ptr() == data[start as usize * $N..].as_ptr(), "first element of the range");
                }
                kani::cover!(start == end);
                kani::cover!(start > 500 && start < end);
            }
        }
    };
}
views!(size1, 1, MAX);
views!(size3, 3, 1 << 12);
views!(size4, 4, MAX);
