//! C10: bytes of a stored resource.
use crate::common::*;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::ResourceStorage;

const SCHEMA: &str = "abc";

/// The byte at `pos` of a resource with `len` bytes of data.
fn container_byte(len: usize, data: impl Fn(usize) -> u8, pos: usize) -> u8 {
    if pos < 8 {
        (len as u64 >> (8 * pos)) as u8
    } else if pos < 8 + len {
        data(pos - 8)
    } else {
        0
    }
}

/// Writing a resource at once.
#[kani::proof]
#[kani::unwind(10)]
fn write() {
    let watched: usize = kani::any();
    let watched_schema: usize = kani::any();
    let mock = Mock::new(["r", "r.schema", "", ""], [watched, watched_schema, 0, 0]);
    let data = buffer(kani::any());
    let _: [u8; 1] = name_bytes(data, if watched < 8 { 0 } else { watched - 8 });
    unsafe { PARTIAL = true };
    mock.write("r", SCHEMA, data).good();
    let (s, t) = (mock.state(0), mock.state(1));
    assert!(s.len == data.len() + 16, "size of the resource");
    assert!(t.len == SCHEMA.len(), "size of the schema");
    if watched < s.len {
        let expected = container_byte(data.len(), |i| data[i], watched);
        assert!(s.byte == expected, "byte of the resource");
    }
    if watched_schema < t.len {
        assert!(t.byte == SCHEMA.as_bytes()[watched_schema], "byte of the schema");
    }
    kani::cover!(watched == 3 && data.len() > 300);
    kani::cover!(watched > 8 && watched < 8 + data.len());
    kani::cover!(watched >= 8 + data.len() && watched < s.len);
}

/// Writing a resource with a handle.
///
/// A handle knows its stream and the number of bytes which are written. The first write reaches any such
/// state, so the second one is a step from any state, and so is closing.
fn handle(max: usize) -> (usize, usize) {
    let watched: usize = kani::any();
    let mut s = Plain {
        mock: Mock::new(["r", "", "", ""], [watched, 0, 0, 0]),
        schemas: [SCHEMA, "", "", ""],
    };
    let content = buffer(kani::any());
    let (start, len) = (content.as_ptr(), content.len());
    s.mock.content[0] = Some(content);
    let (m, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(m < max && n < max);
    let (first, second) = (buffer(m), buffer(n));
    let data = |i| if i < m { first[i] } else { second[i - m] };
    let expected = container_byte(m + n, data, watched);
    let stream = s.create_output_stream("r").good();
    let mut h = ResourceHandle::try_new(&s, "r".into(), SCHEMA.into(), stream).good();
    unsafe { PARTIAL = true };
    h.write(first).good();
    h.write(second).good();
    let state = s.mock.state(0);
    assert!(state.pos == state.len && state.len == 8 + m + n, "everything is written");
    let view = h.close().good();
    let state = s.mock.state(0);
    assert!(state.len == m + n + 16, "size of the resource");
    if watched < state.len {
        assert!(state.byte == expected, "byte of the resource");
        assert!(watched < 8 || state.written == 1, "data is written once");
    }
    assert!(view.as_ptr() == start && view.len() == len, "data of the resource");
    (m, n)
}

#[kani::proof]
#[kani::unwind(10)]
fn pieces() {
    handle(MAX);
}
#[kani::proof]
#[kani::unwind(10)]
fn pieces_small() {
    let (m, n) = handle(256);
    kani::cover!(m == 0 && n > 0);
    kani::cover!(m > 0 && n > 0);
}
