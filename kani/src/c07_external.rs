//! C07: external vectors.
//!
//! The content of an external vector is the content of its stream (behind the header), followed by
//! the data which is not flushed yet. The harnesses follow an arbitrary byte of it, at `pos`.
use crate::common::*;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::{create_external_vector, ExternalVector, ResourceStorage};

const SCHEMA: &str = "abc";

pub fn storage(watched: usize, watched_schema: usize) -> Plain {
    Plain {
        mock: Mock::new(["v", "v.schema", "", ""], [watched, watched_schema, 0, 0]),
        schemas: [SCHEMA, "", "", ""],
    }
}

/// A new external vector is empty, and its schema is stored.
#[kani::proof]
#[kani::unwind(10)]
fn create() {
    let (watched, watched_schema): (usize, usize) = (kani::any(), kani::any());
    let s = storage(watched, watched_schema);
    let v = create_external_vector::<Opaque<4>>(&s, "v", SCHEMA).good();
    assert!(v.len() == 0 && v.is_empty() && v.is_open(), "new vector is empty");
    let state = s.mock.state(0);
    assert!(state.created && state.pos == 8 && state.len == 8, "header is reserved");
    let schema = s.mock.state(1);
    assert!(schema.len == SCHEMA.len(), "schema");
    if watched_schema < schema.len {
        assert!(schema.byte == SCHEMA.as_bytes()[watched_schema], "schema");
    }
    #[cfg(feature = "state")]
    assert!(v.pending() == &[0; 8], "nothing to flush");
    kani::cover!(true);
    std::mem::forget(v);
}

/// Data which is not flushed.
const BIG: usize = 1 << 26;

#[cfg(feature = "state")]
macro_rules! steps {
    ($name:ident, $N:expr, $covers:tt) => {
        pub mod $name {
            use super::*;

            pub struct Any<'a> {
                pub v: ExternalVector<'a, Opaque<$N>>,
                /// Number of elements.
                pub len: usize,
                /// Size of the elements which are flushed.
                pub written: usize,
                /// Position of a byte, and its value.
                pub pos: usize,
                pub byte: u8,
            }

            /// An external vector with any number of elements, of which any number is flushed.
            ///
            /// The buffer has a capacity of `spare` bytes more than it needs.
            pub fn any_vector(s: &Plain, pos: usize, max: usize, spare: usize) -> Any<'_> {
                let stream = s.mock.create_output_stream("v").good();
                let mut handle = ResourceHandle::try_new(s, "v".into(), SCHEMA.into(), stream).good();
                let byte: u8 = kani::any();
                // with what is flushed
                let (flushed, pending): (usize, usize) = (kani::any(), kani::any());
                kani::assume(flushed < MAX / $N && pending < max / $N);
                let data = buffer(flushed * $N);
                if pos < data.len() {
                    data[pos] = byte;
                }
                handle.write(data).good();
                // and with what is not flushed
                let capacity = pending * $N + 8 + spare;
                let data = buffer(capacity);
                // padding
                let end: [u8; 8] = [0; 8];
                data[pending * $N..pending * $N + 8].copy_from_slice(&end);
                if pos >= flushed * $N && pos - flushed * $N < pending * $N {
                    data[pos - flushed * $N] = byte;
                }
                let data = unsafe { Vec::from_raw_parts(data.as_mut_ptr(), pending * $N + 8, capacity) };
                let len = flushed + pending;
                Any { v: ExternalVector::from_state(data, len, handle), len, written: flushed * $N, pos, byte }
            }

            /// A step from any state: a new element behind the other ones, which are the same.
            /// With so many elements which are not flushed that they are flushed now.
            #[kani::proof]
            #[kani::unwind(10)]
            fn grow_full() {
                grow(BIG, Some(true), 0)
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn grow_not_full() {
                grow(BIG, Some(false), $N)
            }
            /// With a buffer which has to be reallocated.
            #[kani::proof]
            #[kani::unwind(6)]
            fn grow_small() {
                grow(1024, None, 0)
            }

            fn grow(max: usize, full: Option<bool>, spare: usize) {
                let pos: usize = kani::any();
                kani::assume(pos < MAX * 2);
                let s = storage(8 + pos, 0);
                let mut a = any_vector(&s, pos, max, spare);
                if let Some(full) = full {
                    kani::assume(full == (a.v.pending().len() > 32 << 20));
                }
                let values: [u8; $N] = kani::any();
                {
                    let item = a.v.grow().good();
                    let mut i = 0;
                    while i < $N {
                        assert!(item.0[i] == 0, "new element is zero");
                        item.0[i] = values[i];
                        i += 1;
                    }
                }
                assert!(a.v.len() == a.len + 1 && !a.v.is_empty(), "number of elements");
                assert!(a.v.is_open());
                let state = s.mock.state(0);
                let written = state.len - 8;
                let pending = a.v.pending();
                assert!(state.pos == state.len, "position of the stream");
                assert!(written + pending.len() - 8 == a.len * $N + $N, "size of the data");
                let expected = if pos < a.len * $N {
                    a.byte
                } else if pos < a.len * $N + $N {
                    values[pos - a.len * $N]
                } else {
                    0 // padding
                };
                if pos < written {
                    assert!(state.written == 1 && state.byte == expected, "element which is flushed");
                } else if pos - written < pending.len() {
                    assert!(pending[pos - written] == expected, "element which is not flushed");
                }
                if $covers {
                    kani::cover!(pos < a.len * $N, "previous element");
                    kani::cover!(pos >= a.len * $N, "new element");
                }
                std::mem::forget(a.v);
            }

            /// From any state: closing stores all elements.
            #[kani::proof]
            #[kani::unwind(10)]
            fn close() {
                let pos: usize = kani::any();
                kani::assume(pos < MAX * 2);
                let header: bool = kani::any();
                // either a byte of the header, or one behind it
                kani::assume(!header || pos < 8);
                let mut s = storage(if header { pos } else { 8 + pos }, 0);
                let content = buffer(kani::any());
                let start = content.as_ptr();
                let len = content.len() / $N;
                s.mock.content[0] = Some(content);
                let a = any_vector(&s, pos, BIG, 0);
                let view = a.v.close().good();
                assert!(view.len() == len && view.as_bytes().as_ptr() == start, "view to the resource");
                let state = s.mock.state(0);
                assert!(state.len == a.len * $N + 16, "size of the resource");
                if header {
                    assert!(state.byte == (a.len as u64 * $N >> (8 * pos)) as u8, "header");
                } else if pos < a.len * $N {
                    assert!(state.written == 1 && state.byte == a.byte, "element");
                } else if pos < a.len * $N + 8 {
                    assert!(state.written == 1 && state.byte == 0, "padding");
                }
                if $covers {
                    kani::cover!(header, "header");
                    kani::cover!(pos < a.written, "flushed before");
                    kani::cover!(pos >= a.written && pos < a.len * $N, "flushed by close");
                }
            }
        }
    };
}
#[cfg(feature = "state")]
steps!(size4, 4, true);
#[cfg(feature = "state")]
steps!(size1, 1, true);

/// A new vector with up to three elements is closed. (Does not need access to the state.)
fn sequence<const N: usize>(count: usize) {
    let pos: usize = kani::any();
    kani::assume(pos < MAX);
    let mut s = storage(8 + pos, 0);
    s.mock.content[0] = Some(&[]);
    let mut v = create_external_vector::<Opaque<N>>(&s, "v", SCHEMA).good();
    let byte: u8 = kani::any();
    let mut i = 0;
    while i < count {
        assert!(v.len() == i);
        let item = v.grow().good();
        let p: usize = kani::any();
        if p < N {
            assert!(item.0[p] == 0, "new element is zero");
        }
        if pos >= i * N && pos - i * N < N {
            item.0[pos - i * N] = byte;
        }
        i += 1;
    }
    assert!(v.len() == count);
    v.close().good();
    let state = s.mock.state(0);
    assert!(state.len == count * N + 16, "size of the resource");
    if pos < count * N + 8 {
        let expected = if pos < count * N { byte } else { 0 };
        assert!(state.written == 1 && state.byte == expected, "content of the resource");
    }
    kani::cover!(pos < N, "first element");
}

#[kani::proof]
#[kani::unwind(10)]
fn sequence_small() {
    sequence::<3>(3)
}
/// Flushed for each element.
#[cfg(feature = "thorough")]
#[kani::proof]
#[kani::stub(std::vec::Vec::resize, resize)]
#[kani::unwind(10)]
fn sequence_40_mib() {
    sequence::<{ 40 << 20 }>(2)
}
