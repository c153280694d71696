//! C06: iterators of array views.
use crate::common::*;
use flatdata::{ArrayView, Struct};

macro_rules! iters {
    ($name:ident, $N:expr, $max:expr) => {
        pub mod $name {
            use super::*;
            type View = ArrayView<'static, Opaque<$N>>;

            /// Item at `index`, by its place in memory.
            pub fn item(data: &'static [u8], index: usize) -> Option<OpaqueRef<'static>> {
                Some(OpaqueRef(&data[index * $N..]))
            }

            fn any_data() -> &'static [u8] {
                let len: usize = kani::any();
                kani::assume(len < $max);
                buffer(len)
            }

            /// An iterator starts with all elements of its view.
            #[kani::proof]
            fn starts() {
                let data = any_data();
                let view = View::new(data);
                let n = data.len() / $N;
                let mut it = view.iter();
                assert!(it.len() == n);
                assert!(it.size_hint() == (n, Some(n)));
                let mut it2 = (&view).into_iter();
                let mut it3 = view.clone().into_iter();
                if n > 0 {
                    let back: bool = kani::any();
                    let expected = item(data, if back { n - 1 } else { 0 });
                    let mut next = |mut i: flatdata::contracts::ArrayViewIter<'static, Opaque<$N>>| {
                        if back { i.next_back() } else { i.next() }
                    };
                    assert!(next(it.clone()) == expected);
                    assert!(next(it) == expected);
                    assert!(next(it2) == expected);
                    assert!(next(it3) == expected);
                }
                kani::cover!(n == 0);
                kani::cover!(n > 500);
            }

            /// Iterator methods which have a default in terms of next and next_back.
            #[kani::proof]
            #[kani::unwind(6)]
            fn provided_methods() {
                let n: usize = kani::any();
                kani::assume(n <= 3);
                let rest: usize = kani::any();
                kani::assume(rest < $N);
                let data: &'static [u8] = buffer(n * $N + rest);
                let k: usize = kani::any();
                let it = View::new(data).iter();
                assert!(it.clone().count() == n, "count");
                let last = it.clone().last();
                assert!(last == if n == 0 { None } else { item(data, n - 1) }, "last");
                let mut i = it.clone();
                let expected = if k < n { item(data, k) } else { None };
                assert!(i.nth(k) == expected, "nth");
                assert!(i.len() == if k < n { n - k - 1 } else { 0 }, "items left behind nth");
                let mut i = it.clone();
                let expected = if k < n { item(data, n - 1 - k) } else { None };
                assert!(i.nth_back(k) == expected, "nth_back");
                assert!(i.len() == if k < n { n - k - 1 } else { 0 }, "items left in front of nth_back");
            }

            /// One step from any state: the item, and exactly the other ones are left.
            #[cfg(feature = "state")]
            #[kani::proof]
            fn step() {
                let data = any_data();
                let n = data.len() / $N;
                let mut it = View::new(data).iter();
                let back: bool = kani::any();
                let actual = if back { it.next_back() } else { it.next() };
                // `rest` is the whole state of an iterator, so this is any state, too.
                let rest = it.rest();
                let len = rest.as_bytes().len() / $N;
                if n == 0 {
                    assert!(actual.is_none() && len == 0, "nothing behind the last item");
                } else {
                    assert!(actual == item(data, if back { n - 1 } else { 0 }), "item");
                    assert!(len == n - 1, "number of items left");
                    if len > 0 {
                        let first = data[if back { 0 } else { $N }..].as_ptr();
                        assert!(rest.as_bytes().as_ptr() == first, "items left");
                    }
                }
                assert!(it.len() == len && it.size_hint() == (len, Some(len)), "size");
                kani::cover!(n == 0);
                kani::cover!(n == 1);
                kani::cover!(n > 500);
            }
        }
    };
}
iters!(size1, 1, MAX);
iters!(size3, 3, 1 << 12);
iters!(size4, 4, MAX);

/// Any four steps in any direction, from any view.
#[kani::proof]
#[kani::unwind(6)]
fn four_steps() {
    let len: usize = kani::any();
    kani::assume(len < 1 << 12);
    let data: &'static [u8] = buffer(len);
    let mut it = ArrayView::<Opaque<3>>::new(data).iter();
    let (mut first, mut last) = (0, data.len() / 3);
    let mut step = 0;
    while step < 4 {
        let back: bool = kani::any();
        let expected = if first == last {
            None
        } else if back {
            last -= 1;
            size3::item(data, last)
        } else {
            first += 1;
            size3::item(data, first - 1)
        };
        let actual = if back { it.next_back() } else { it.next() };
        assert!(actual == expected, "item");
        assert!(it.len() == last - first, "number of items left");
        assert!(it.size_hint() == (last - first, Some(last - first)), "size hint");
        step += 1;
    }
    kani::cover!(first == last);
    kani::cover!(first != last);
}
