//! C08: multivectors.
//!
//! A multivector consists of an index and of data, and each one of a stream (behind its header),
//! followed by what is not flushed yet. The harnesses follow an arbitrary byte of each one.
use crate::common::*;
use crate::contract;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::{create_multi_vector, ExternalVector, MultiVector, ResourceStorage, Struct, VariadicStruct};

const SCHEMA: &str = "abc";

define_index!(Idx, RefIdx, RefMutIdx, "index", 8, 64);
define_struct!(A, RefA, RefMutA, "a", 4, (x, set_x, u32, 0, 32));
define_struct!(B, RefB, RefMutB, "b", 1, (y, set_y, u8, 0, 8));
define_struct!(C, RefC, RefMutC, "c", 3, (z, set_z, u32, 0, 24));
define_variadic_struct!(V, RefV, BuilderV, Idx, 0 => (A, add_a), 1 => (B, add_b), 7 => (C, add_c));

/// Size of an entry of the index.
const I: usize = 8;

fn storage(index: usize, data: usize) -> Plain {
    Plain {
        mock: Mock::new(["v_index", "v_index.schema", "v", "v.schema"], [index, 0, data, 0]),
        schemas: ["index(abc)", "", SCHEMA, ""],
    }
}

/// Adds an item with any value. Returns its bytes: tag, and fields.
fn add_item(kind: u8, item: &mut BuilderV) -> ([u8; 5], usize) {
    let w: [u8; 4] = kani::any();
    match kind {
        0 => {
            let mut a = item.add_a();
            assert!(a.x() == 0, "new item is zero");
            a.set_x(u32::from_le_bytes(w));
            ([0, w[0], w[1], w[2], w[3]], 5)
        }
        1 => {
            let mut b = item.add_b();
            assert!(b.y() == 0, "new item is zero");
            b.set_y(w[0]);
            ([1, w[0], 0, 0, 0], 2)
        }
        _ => {
            let mut c = item.add_c();
            assert!(c.z() == 0, "new item is zero");
            c.set_z(u32::from_le_bytes([w[0], w[1], w[2], 0]));
            ([7, w[0], w[1], w[2], 0], 4)
        }
    }
}

fn vec_of(data: &'static mut [u8], len: usize) -> Vec<u8> {
    unsafe { Vec::from_raw_parts(data.as_mut_ptr(), len, data.len()) }
}

/// Adding an item to the last bucket, from any state of its data.
fn add(kind: u8, max: usize, spare: usize) -> (usize, usize) {
    let size: usize = kani::any();
    kani::assume(size < max);
    let capacity = size + 8 + spare;
    let data = buffer(capacity);
    let pos: usize = kani::any();
    let byte: u8 = kani::any();
    let padding = [0; 8];
    data[size..size + 8].copy_from_slice(&padding);
    if pos < size {
        data[pos] = byte;
    }
    let mut data = vec_of(data, size + 8);
    let (item, item_size) = add_item(kind, &mut V::create_mut(&mut data));
    assert!(data.len() == size + item_size + 8, "size of the data");
    if pos < size {
        assert!(data[pos] == byte, "other items");
    } else if pos < size + item_size {
        assert!(data[pos] == item[pos - size], "new item");
    } else if pos < data.len() {
        assert!(data[pos] == 0, "padding");
    }
    std::mem::forget(data);
    (pos, size)
}

#[kani::proof]
#[kani::unwind(7)]
fn add_a_small() {
    let (pos, size) = add(0, 256, 0);
    kani::cover!(pos < size);
    kani::cover!(pos == size);
}
#[kani::proof]
#[kani::unwind(7)]
fn add_a() {
    add(0, MAX, 5);
}
#[kani::proof]
#[kani::unwind(4)]
fn add_b_small() {
    let (pos, size) = add(1, 256, 0);
    kani::cover!(pos < size);
    kani::cover!(pos == size);
}
#[kani::proof]
#[kani::unwind(4)]
fn add_b() {
    add(1, MAX, 5);
}
#[kani::proof]
#[kani::unwind(6)]
fn add_c_small() {
    let (pos, size) = add(7, 256, 0);
    kani::cover!(pos < size);
    kani::cover!(pos == size);
}
#[kani::proof]
#[kani::unwind(6)]
fn add_c() {
    add(7, MAX, 5);
}
#[cfg(feature = "state")]
pub mod steps {
    use crate::contract::*;
    use super::*;

    pub struct Any<'a> {
        pub v: MultiVector<'a, Idx, V>,
        /// Size of the data, and how much of it is flushed.
        pub size: usize,
        pub written: usize,
        /// A byte of the data.
        pub byte: u8,
    }

    /// A multivector with any data, any part of which is flushed.
    pub fn any_vector(s: &Plain, pos: usize, max: usize) -> Any<'_> {
        let stream = s.mock.create_output_stream("v_index").good();
        let index = ResourceHandle::try_new(s, "v_index".into(), s.schemas[0].into(), stream).good();
        let index = ExternalVector::new(index);
        let stream = s.mock.create_output_stream("v").good();
        let mut handle = ResourceHandle::try_new(s, "v".into(), SCHEMA.into(), stream).good();
        let byte: u8 = kani::any();
        let (flushed, pending): (usize, usize) = (kani::any(), kani::any());
        kani::assume(flushed < MAX && pending < max);
        let data = buffer(flushed);
        if pos < data.len() {
            data[pos] = byte;
        }
        handle.write(data).good();
        let data = buffer(pending + 8);
        let padding = [0; 8];
        data[pending..pending + 8].copy_from_slice(&padding);
        if pos >= flushed && pos - flushed < pending {
            data[pos - flushed] = byte;
        }
        let v = MultiVector::from_state(index, vec_of(data, pending + 8), flushed, handle);
        Any { v, size: flushed + pending, written: flushed, byte }
    }

    /// Entry which was added to the index, as bytes in the state of the contracts, or, if these do not
    /// replace the functions, in the index itself.
    fn entry(v: &MultiVector<Idx, V>) -> u64 {
        if cfg!(test) {
            let (index, _, _) = v.state();
            let data = index.pending();
            let mut bytes = [0; I];
            bytes.copy_from_slice(&data[data.len() - 8 - I..data.len() - 8]);
            return u64::from_le_bytes(bytes);
        }
        unsafe {
            assert!(GROWN == 1, "an entry is added to the index");
            u64::from_le_bytes(ENTRY)
        }
    }

    /// From any state: a new bucket behind all data, which is the same.
    fn grow(max: usize) {
        let pos: usize = kani::any();
        kani::assume(pos < MAX * 2);
        let s = storage(0, 8 + pos);
        let mut a = any_vector(&s, pos, max);
        {
            let _ = a.v.grow().good();
        }
        let (_, pending, flushed) = a.v.state();
        let ds = s.mock.state(2);
        // data is the same
        assert!(ds.pos == ds.len && ds.len - 8 == flushed, "flushed data");
        assert!(flushed + pending.len() - 8 == a.size, "size of the data");
        let expected = if pos < a.size { a.byte } else { 0 };
        if pos < flushed {
            assert!(ds.written == 1 && ds.byte == expected, "data which is flushed");
        } else if pos - flushed < pending.len() {
            assert!(pending[pos - flushed] == expected, "data which is not flushed");
        }
        assert!(entry(&a.v) == a.size as u64, "entry of the index");
        std::mem::forget(a.v);
    }

    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(flatdata::ExternalVector::grow, contract::grow)]
    fn grow_any() {
        grow(1 << 26);
    }

    /// From any state: closing stores all data, and the index with a sentinel.
    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(flatdata::ExternalVector::grow, contract::grow)]
    #[kani::stub(flatdata::ExternalVector::close, contract::close)]
    #[kani::stub(flatdata::contracts::ResourceHandle::close, contract::close_handle)]
    fn close_any() {
        let (pos, index_pos): (usize, usize) = (kani::any(), kani::any());
        kani::assume(pos < MAX * 2 && index_pos < I);
        let mut s = storage(8 + index_pos, 8 + pos);
        s.mock.content[0] = Some(INDEX);
        s.mock.content[2] = Some(DATA);
        let a = any_vector(&s, pos, 1 << 26);
        let view = a.v.close().good();
        let ds = s.mock.state(2);
        assert!(ds.len == a.size + if cfg!(test) { 16 } else { 8 }, "size of the data");
        if pos < a.size {
            assert!(ds.written == 1 && ds.byte == a.byte, "data");
        }
        if cfg!(test) {
            let is = s.mock.state(0);
            assert!(is.len == I + 16 && is.byte == (a.size as u64).to_le_bytes()[index_pos], "sentinel of the index");
        } else {
            unsafe {
                assert!(GROWN == 1 && u64::from_le_bytes(ENTRY) == a.size as u64, "sentinel of the index");
                assert!(INDEX_CLOSED && DATA_CLOSED, "both are closed");
            }
        }
        assert!(view.len() == 1, "view to the index");
        assert!(matches!(view.at(0).next(), Some(RefV::B(b)) if b.y() == 42), "view to the data");
    }
}

/// A new multivector with two buckets is closed. (Does not need access to the state.)
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(flatdata::ExternalVector::grow, contract::grow)]
#[kani::stub(flatdata::ExternalVector::close, contract::close)]
#[kani::stub(flatdata::contracts::ResourceHandle::close, contract::close_handle)]
fn sequence() {
    two_buckets(false)
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(flatdata::ExternalVector::grow, contract::grow)]
#[kani::stub(flatdata::ExternalVector::close, contract::close)]
#[kani::stub(flatdata::contracts::ResourceHandle::close, contract::close_handle)]
fn sequence_empty_bucket() {
    two_buckets(true)
}

fn two_buckets(empty: bool) {
    use crate::contract::*;
    let (pos, index_pos): (usize, usize) = (kani::any(), kani::any());
    kani::assume(pos < MAX);
    let mut s = storage(index_pos, 8 + pos);
    s.mock.content[0] = Some(INDEX);
    s.mock.content[2] = Some(DATA);
    let stream = s.mock.create_output_stream("v_index").good();
    let index = ResourceHandle::try_new(&s, "v_index".into(), s.schemas[0].into(), stream).good();
    let stream = s.mock.create_output_stream("v").good();
    let handle = ResourceHandle::try_new(&s, "v".into(), SCHEMA.into(), stream).good();
    let mut v = MultiVector::<Idx, V>::new(ExternalVector::new(index), handle);
    let (mut first, mut split) = ([0; 5], 0);
    {
        let mut item = v.grow().good();
        if !cfg!(test) {
            unsafe { assert!(GROWN == 1 && ENTRY == [0; I], "first bucket") };
        }
        if !empty {
            let (bytes, len) = add_item(1, &mut item);
            first = bytes;
            split = len;
        }
    }
    let mut item = v.grow().good();
    if !cfg!(test) {
        unsafe { assert!(GROWN == 2 && u64::from_le_bytes(ENTRY) == split as u64, "second bucket") };
    }
    let (second, len) = add_item(7, &mut item);
    let size = split + len;
    v.close().good();
    let (is, ds) = (s.mock.state(0), s.mock.state(2));
    assert!(ds.len == size + if cfg!(test) { 16 } else { 8 }, "size of the resource");
    if pos < size {
        let expected = if pos < split { first[pos] } else { second[pos - split] };
        assert!(ds.byte == expected, "data");
    }
    if !cfg!(test) {
        unsafe { assert!(GROWN == 3 && u64::from_le_bytes(ENTRY) == size as u64 && INDEX_CLOSED && DATA_CLOSED, "sentinel") };
    } else if index_pos < 3 * I + 16 {
        let expected = match index_pos {
            0 => 24,
            16 => split as u8,
            24 => size as u8,
            _ => 0,
        };
        assert!(is.len == 3 * I + 16 && is.byte == expected, "index");
    }
}

/// A new multivector is empty, and both schemas are stored.
#[kani::proof]
#[kani::unwind(16)]
#[kani::stub(std::fmt::format, format)]
fn create() {
    let (pos, index_pos): (usize, usize) = (kani::any(), kani::any());
    let s = storage(index_pos, pos);
    let v = create_multi_vector::<Idx, V>(&s, "v", SCHEMA).good();
    for slot in [0, 2] {
        let state = s.mock.state(slot);
        assert!(state.created && state.pos == 8 && state.len == 8, "header is reserved");
    }
    #[cfg(feature = "state")]
    {
        let (index, data, flushed) = v.state();
        assert!(index.len() == 0 && data == &[0; 8] && flushed == 0, "new multivector is empty");
    }
    std::mem::forget(v);
}

/// Schemas are stored with the data, and with the index.
#[kani::proof]
#[kani::unwind(16)]
#[kani::stub(std::fmt::format, format)]
fn schemas() {
    let pos: usize = kani::any();
    let mut s = storage(0, 0);
    s.mock.names = ["v_index", "v_index.schema", "v", "v.schema"];
    s.mock.states[1].set(State::watching(pos));
    s.mock.states[3].set(State::watching(pos));
    let v = create_multi_vector::<Idx, V>(&s, "v", SCHEMA).good();
    let (index, data) = (s.mock.state(1), s.mock.state(3));
    assert!(index.len == 10 && data.len == 3, "schemas");
    assert!(pos >= 10 || index.byte == b"index(abc)"[pos], "schema of the index");
    assert!(pos >= 3 || data.byte == SCHEMA.as_bytes()[pos], "schema of the data");
    std::mem::forget(v);
}
