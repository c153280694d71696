//! C09: views to multivectors.
use crate::common::*;
use flatdata::{ArrayView, IndexStruct, MultiArrayView, Struct, TypeIndex, VariadicRef, VariadicStruct};

/// Size of an entry of the index.
pub const I: usize = 8;
define_index!(Idx, RefIdx, RefMutIdx, "index", 8, 64);
define_index!(Idx2, RefIdx2, RefMutIdx2, "index2", 2, 16);

/// Size of an item of the variadic type below, without its tag. Arbitrary.
pub static mut SIZE: usize = 0;

/// Any variadic type: an item is its tag and the data it was created from, by its place in memory.
#[derive(Clone)]
pub struct Any;
#[derive(Clone, Copy, Debug)]
pub struct RefAny<'a> {
    pub tag: TypeIndex,
    pub data: &'a [u8],
}
impl<'a> PartialEq for RefAny<'a> {
    fn eq(&self, other: &Self) -> bool {
        self.tag == other.tag && self.data.as_ptr() == other.data.as_ptr() && self.data.len() == other.data.len()
    }
}
impl<'a> VariadicRef for RefAny<'a> {
    fn size_in_bytes(&self) -> usize {
        unsafe { SIZE }
    }
}
impl<'a> VariadicStruct<'a> for Any {
    type Item = RefAny<'a>;
    fn create(tag: TypeIndex, data: &'a [u8]) -> RefAny<'a> {
        RefAny { tag, data }
    }
    type ItemMut = ();
    fn create_mut(_: &'a mut Vec<u8>) {}
}

/// Any type of index. Views do not look into entries; harnesses about more than one bucket have short
/// ones, since this is less expensive.
pub trait Index: for<'b> IndexStruct<'b> {
    const SIZE: usize = <Self as Struct>::SIZE_IN_BYTES;
}
impl Index for Idx {}
impl Index for Idx2 {}

pub type View<X> = MultiArrayView<'static, X, Any>;

pub struct State<X: Index> {
    pub index: &'static [u8],
    pub data: &'static [u8],
    /// Number of buckets.
    pub len: usize,
    pub view: View<X>,
}

/// A view with any index and any data.
pub fn any_view<X: Index>(max: usize) -> State<X> {
    let (len, size, extra): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(len < max / X::SIZE && size < max && extra < X::SIZE);
    let (index, data) = (buffer((len + 1) * X::SIZE + extra), buffer(size));
    unsafe {
        SIZE = kani::any();
    }
    State { index, data, len, view: View::new(ArrayView::new(index), data) }
}

impl<X: Index> State<X> {
    pub fn entry(&self, i: usize) -> usize {
        let mut bytes = [0; 8];
        bytes[..X::SIZE].copy_from_slice(&self.index[i * X::SIZE..(i + 1) * X::SIZE]);
        u64::from_le_bytes(bytes) as usize
    }

    /// Range of a valid bucket.
    pub fn bucket(&self, i: usize) -> (usize, usize) {
        let (start, end) = (self.entry(i), self.entry(i + 1));
        kani::assume(start <= end && end <= self.data.len());
        (start, end)
    }

    /// Item of a bucket at a position of the data, if there is one.
    pub fn item(&self, pos: usize, end: usize) -> Option<RefAny<'static>> {
        if pos == end {
            return None;
        }
        let size = unsafe { SIZE };
        kani::assume(size < end - pos);
        Some(RefAny { tag: self.data[pos], data: &self.data[pos + 1..end] })
    }

    /// First item of a bucket. It identifies the bucket, since it has all of its data.
    pub fn first(&self, i: usize) -> Option<RefAny<'static>> {
        let (start, end) = self.bucket(i);
        self.item(start, end)
    }
}

fn at(max: usize) -> usize {
    let s = any_view::<Idx>(max);
    assert!(s.view.len() == s.len && s.view.is_empty() == (s.len == 0), "number of buckets");
    let i: usize = kani::any();
    kani::assume(i < s.len);
    let (start, end) = s.bucket(i);
    let first = s.item(start, end);
    let next = if first.is_some() { start + 1 + unsafe { SIZE } } else { end };
    let second = s.item(next, end);
    let mut items = s.view.at(i);
    assert!(items.next() == first, "item");
    if first.is_none() {
        assert!(items.next().is_none(), "nothing in an empty bucket");
        return 0;
    }
    // an arbitrary bucket starts anywhere, so this is a step from any state
    assert!(items.next() == second, "next item");
    if second.is_none() {
        assert!(items.next().is_none(), "nothing behind the last item");
        return 1;
    }
    2
}

/// A bucket consists of the items between its entry of the index and the next one.
#[kani::proof]
#[kani::unwind(10)]
fn bucket() {
    at(MAX);
}
#[kani::proof]
#[kani::unwind(10)]
fn bucket_small() {
    let count = at(256);
    kani::cover!(count == 0);
    kani::cover!(count == 1);
    kani::cover!(count == 2);
}

/// A slice has exactly the buckets of the range.
#[kani::proof]
#[kani::unwind(10)]
fn slice() {
    let s = any_view::<Idx>(MAX);
    let range = any_range();
    let (start, end) = ends(&range, s.len);
    kani::assume(start <= end && end <= s.len as u128);
    let (start, end) = (start as usize, end as usize);
    let slice = s.view.slice(range);
    assert!(slice.len() == end - start, "number of buckets");
    let j: usize = kani::any();
    if j < end - start {
        let expected = s.first(start + j);
        assert!(slice.at(j).next() == expected, "bucket");
    }
}

/// An iterator starts with all buckets.
#[kani::proof]
#[kani::unwind(10)]
fn starts() {
    let s = any_view::<Idx>(MAX);
    let mut it = s.view.iter();
    assert!(it.len() == s.len && it.size_hint() == (s.len, Some(s.len)), "number of buckets");
    let (mut it2, mut it3) = ((&s.view).into_iter(), s.view.clone().into_iter());
    assert!(it2.len() == s.len && it3.len() == s.len, "number of buckets");
    if s.len > 0 {
        let expected = s.first(0);
        let which: u8 = kani::any();
        let items = match which {
            0 => it.next(),
            1 => it2.next(),
            _ => it3.next(),
        };
        assert!(items.is_some(), "bucket");
        assert!(items.unwrap().next() == expected, "bucket");
    } else {
        assert!(it.next().is_none() && it2.next().is_none() && it3.next().is_none(), "no bucket");
    }
}

/// One step from any state: the bucket, and exactly the other ones are left.
#[cfg(feature = "state")]
fn step(back: bool, taken: bool) {
    let s = any_view::<Idx2>(MAX);
    let mut it = s.view.iter();
    if s.len == 0 {
        assert!(if back { it.next_back() } else { it.next() }.is_none(), "nothing behind the last bucket");
        assert!(it.len() == 0 && it.rest().len() == 0, "no bucket");
        return;
    }
    // arbitrary bucket; the one of the step is valid as well
    let i: usize = kani::any();
    kani::assume(i < s.len);
    let expected = s.first(i);
    let n = s.len - 1;
    let now = if back { n } else { 0 };
    s.bucket(now);
    kani::assume(taken == (i == now));
    let items = if back { it.next_back() } else { it.next() };
    assert!(items.is_some(), "bucket");
    let rest = it.rest();
    assert!(it.len() == n && it.size_hint() == (n, Some(n)) && rest.len() == n, "number of buckets left");
    let mut items = if taken { items.unwrap() } else { rest.at(if back { i } else { i - 1 }) };
    assert!(items.next() == expected, "bucket of the step, or one of those left");
}
#[cfg(feature = "state")]
#[kani::proof]
#[kani::unwind(10)]
fn step_front() {
    step(false, true);
}
#[cfg(feature = "state")]
#[kani::proof]
#[kani::unwind(10)]
fn step_front_rest() {
    step(false, false);
}
#[cfg(feature = "state")]
#[kani::proof]
#[kani::unwind(10)]
fn step_back() {
    step(true, true);
}
#[cfg(feature = "state")]
#[kani::proof]
#[kani::unwind(10)]
fn step_back_rest() {
    step(true, false);
}

fn small_view() -> State<Idx2> {
    let (len, index, data): (usize, [u8; 8], [u8; 3]) = kani::any();
    kani::assume(len < 4);
    unsafe {
        SIZE = 0;
    }
    let (index, data) = (Box::leak(Box::new(index)), Box::leak(Box::new(data)));
    let (index, data) = (&index[..(len + 1) * 2], &data[..]);
    State { index, data, len, view: View::new(ArrayView::new(index), data) }
}

/// Methods of iterators of buckets which are provided by default.
#[kani::proof]
#[kani::unwind(6)]
fn provided_methods() {
    let s = small_view();
    let mut i = 0;
    while i < s.len {
        s.bucket(i);
        i += 1;
    }
    let mut it = s.view.iter();
    let k: usize = kani::any();
    let found = k < s.len;
    let which: u8 = kani::any();
    let i = match which {
        0 => k,
        1 => s.len.wrapping_sub(k).wrapping_sub(1),
        _ => s.len.wrapping_sub(1),
    };
    let found = if which < 2 { k < s.len } else { s.len > 0 };
    let expected = if found { s.first(i) } else { None };
    let items = match which {
        0 => it.nth(k),
        1 => it.nth_back(k),
        2 => it.clone().last(),
        _ => {
            assert!(it.count() == s.len, "number of buckets");
            return;
        }
    };
    assert!(items.is_some() == found, "bucket");
    if let Some(mut items) = items {
        assert!(items.next() == expected, "bucket");
    }
    if which < 2 {
        assert!(it.len() == s.len.saturating_sub(k).saturating_sub(1), "number of buckets left");
    }
}
/// The same for iterators of the items of a bucket. Items consist of a tag only.
#[kani::proof]
#[kani::unwind(6)]
fn provided_methods_of_items() {
    let s = small_view();
    kani::assume(s.len > 0);
    let (start, end) = s.bucket(0);
    let n: usize = kani::any();
    let mut items = s.view.at(0);
    match kani::any::<u8>() {
        0 => assert!(items.count() == end - start, "number of items"),
        1 => assert!(items.last().map(|x| x.tag) == s.data[start..end].last().cloned(), "last item"),
        _ => assert!(items.nth(n).map(|x| x.tag) == s.data[start..end].get(n).cloned(), "item"),
    }
}

/// Any two steps in any direction. (Does not need access to the state.)
#[kani::proof]
#[kani::unwind(10)]
fn two_steps() {
    let s = small_view();
    let mut it = s.view.iter();
    let (mut first, mut last) = (0, s.len);
    let mut step = 0;
    while step < 2 {
        let back: bool = kani::any();
        if first == last {
            assert!(if back { it.next_back() } else { it.next() }.is_none(), "nothing left");
        } else {
            let i = if back { last - 1 } else { first };
            let expected = s.first(i);
            if back {
                last -= 1;
            } else {
                first += 1;
            }
            let items = if back { it.next_back() } else { it.next() };
            assert!(items.is_some(), "bucket");
            assert!(items.unwrap().next() == expected, "bucket");
        }
        assert!(it.len() == last - first, "number of buckets left");
        step += 1;
    }
    kani::cover!(first == last);
    kani::cover!(first != last);
}

// Items of variadic types as they are defined by the generator.
define_struct!(A, RefA, RefMutA, "a", 4, (x, set_x, u32, 0, 32));
define_struct!(B, RefB, RefMutB, "b", 1, (y, set_y, u8, 0, 8));
define_struct!(C, RefC, RefMutC, "c", 3, (z, set_z, u32, 0, 24));
define_variadic_struct!(V, RefV, BuilderV, Idx, 0 => (A, add_a), 1 => (B, add_b), 7 => (C, add_c));

/// The tag of an item selects its type, and so its size; its data is what follows.
#[kani::proof]
#[kani::unwind(5)]
fn create() {
    let size: usize = kani::any();
    let tag: u8 = kani::any();
    kani::assume(size < MAX);
    let data: &'static [u8] = buffer(size);
    let n = match tag {
        0 => 4,
        1 => 1,
        7 => 3,
        _ => return,
    };
    kani::assume(size >= n);
    let item = V::create(tag, data);
    assert!(item.size_in_bytes() == n, "size of the item");
    match item {
        RefV::A(a) => {
            assert!(tag == 0 && a.x() == u32::from_le_bytes([data[0], data[1], data[2], data[3]]), "item of type A")
        }
        RefV::B(b) => assert!(tag == 1 && b.y() == data[0], "item of type B"),
        RefV::C(c) => {
            assert!(tag == 7 && c.z() == u32::from_le_bytes([data[0], data[1], data[2], 0]), "item of type C")
        }
    }
    kani::cover!(tag == 0);
    kani::cover!(tag == 7);
}

/// A bucket with two items of generated types.
#[kani::proof]
#[kani::unwind(10)]
fn two_items() {
    let index: &[u8] = &[3, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0];
    let mut data: [u8; 12] = kani::any();
    data[3] = 7;
    data[7] = 1;
    let view = MultiArrayView::<Idx, V>::new(ArrayView::new(index), &data);
    let mut items = view.at(0);
    let z = u32::from_le_bytes([data[4], data[5], data[6], 0]);
    assert!(matches!(items.next(), Some(RefV::C(c)) if c.z() == z), "first item");
    assert!(matches!(items.next(), Some(RefV::B(b)) if b.y() == data[8]), "second item");
    assert!(items.next().is_none(), "nothing behind the last item");
}
