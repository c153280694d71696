//! C18: life cycle of handles.
use crate::common::*;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::ResourceStorage;

const SCHEMA: &str = "abc";

pub fn storage() -> Plain {
    let mut s = Plain {
        mock: Mock::new(["v_index", "", "v", ""], [kani::any(), 0, kani::any(), 0]),
        schemas: ["index(abc)", "", SCHEMA, ""],
    };
    s.mock.content[0] = Some(&[]);
    s.mock.content[2] = Some(&[]);
    s
}

pub fn handle(s: &Plain) -> ResourceHandle<'_> {
    let stream = s.create_output_stream("v").good();
    ResourceHandle::try_new(s, "v".into(), SCHEMA.into(), stream).good()
}

pub fn index_handle(s: &Plain) -> ResourceHandle<'_> {
    let stream = s.create_output_stream("v_index").good();
    ResourceHandle::try_new(s, "v_index".into(), "index(abc)".into(), stream).good()
}

/// A write, and then close, in which the operation behind the first `n` fails: the handle is open until then.
/// Afterwards, each call is an error, nothing is written, and the handle stays closed. Since it does so after
/// either call, one call is any number of them.
fn closed(n: u32, calls: &[Call]) {
    let s = storage();
    let mut h = handle(&s);
    assert!(h.is_open(), "new handle is open");
    let written = h.write(buffer(kani::any()));
    assert!(written.is_ok(), "open handle is written to");
    std::mem::forget(written);
    assert!(h.is_open(), "handle is open after a write");
    fail_after(n, false);
    let closed = h.close();
    std::mem::forget(closed);
    assert!(!h.is_open(), "handle is closed");
    fail_after(u32::max_value(), false);
    let before = s.mock.state(2);
    for call in calls {
        match call {
            Write => {
                let result = h.write(buffer(kani::any()));
                assert!(result.is_err(), "writing to a closed handle");
                std::mem::forget(result);
            }
            Close => {
                let result = h.close();
                assert!(result.is_err(), "closing a closed handle");
                std::mem::forget(result);
            }
        }
        assert!(!h.is_open(), "handle is closed");
    }
    assert!(s.mock.state(2) == before, "nothing is written");
    // dropping it does not panic
}

enum Call {
    Write,
    Close,
}
use Call::*;

macro_rules! closed {
    ($($name:ident($n:expr, $calls:expr)),* $(,)*) => {
        $(
            #[kani::proof]
            #[kani::unwind(10)]
            fn $name() {
                closed($n, &$calls)
            }
        )*
    };
}
closed!(
    fails_0_write(0, [Write]),
    fails_0_close(0, [Close]),
    fails_1_write(1, [Write]),
    fails_1_close(1, [Close]),
    fails_2_write(2, [Write]),
    fails_2_close(2, [Close]),
    fails_3_write(3, [Write]),
    fails_3_close(3, [Close]),
    closed_write(u32::max_value(), [Write]),
    closed_close(u32::max_value(), [Close]),
    closed_write_close(u32::max_value(), [Write, Close]),
);
