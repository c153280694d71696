//! C12: faults of the storage.
//!
//! Each operation of the storage, and of its streams, fails in turn: once, or from then on.
use crate::common::*;
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use std::rc::Rc;
use flatdata::{ArchiveBuilder, create_external_vector, create_multi_vector, ExternalVector, MultiVector, ResourceStorage};

const SCHEMA: &str = "abc";

define_index!(Idx, RefIdx, RefMutIdx, "index", 8, 64);
define_struct!(A, RefA, RefMutA, "a", 4, (x, set_x, u32, 0, 32));
define_variadic_struct!(V, RefV, BuilderV, Idx, 0 => (A, add_a));

fn storage() -> Plain {
    let mut s = Plain {
        mock: Mock::new(["v_index", "v_index.schema", "v", "v.schema"], [0, 0, 0, 0]),
        schemas: ["index(abc)", "", SCHEMA, ""],
    };
    s.mock.content[0] = Some(&[0; 16]);
    s.mock.content[2] = Some(&[]);
    s
}

fn handle<'a>(s: &'a Plain, slot: usize) -> ResourceHandle<'a> {
    let (name, schema) = (s.mock.names[slot], s.schemas[slot]);
    let stream = s.create_output_stream(name).good();
    ResourceHandle::try_new(s, name.into(), schema.into(), stream).good()
}

/// What a call returns: an error iff an operation failed.
fn check<T, E>(result: Result<T, E>) {
    let is_err = result.is_err();
    std::mem::forget(result);
    assert!(is_err || !failed(), "an error is reported");
    assert!(!is_err || failed(), "no error is made up");
}

/// Runs `f`, with a fault after any number of operations less than `OPS`, which is the number of operations
/// in `f` and one more. Each case is on its own, so everything in it is concrete.
macro_rules! faults {
    ($name:ident, $OPS:expr, $unwind:expr, |$faults:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(std::fmt::format, format)]
        fn $name() {
            fn body($faults: impl Fn()) $body
            let (n, dead): (u32, bool) = kani::any();
            let mut i = 0;
            while i < $OPS {
                if n == i && dead {
                    body(|| fail_after(i, true));
                    kani::cover!(i == 0 && failed(), "fails");
                    return;
                }
                if n == i && !dead {
                    body(|| fail_after(i, false));
                    kani::cover!(i == $OPS - 1 && !failed(), "every operation is considered");
                    return;
                }
                i += 1;
            }
        }
    };
}

/// The same, each case in a harness of its own.
macro_rules! each_fault {
    ($name:ident, [$($case:ident $n:expr),*], $unwind:expr, |$faults:ident| $body:block) => {
        mod $name {
            use super::*;
            fn body($faults: impl Fn()) $body
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                #[kani::stub(std::fmt::format, format)]
                fn $case() {
                    if kani::any() {
                        body(|| fail_after($n, true));
                    } else {
                        body(|| fail_after($n, false));
                    }
                }
            )*
        }
    };
}

faults!(write, 7, 18, |faults| {
    let s = storage();
    faults();
    check(s.write("v", SCHEMA, &[1, 2, 3]));
});

faults!(new_handle, 2, 18, |faults| {
    let s = storage();
    let stream = s.create_output_stream("v").good();
    faults();
    check(ResourceHandle::try_new(&s, "v".into(), SCHEMA.into(), stream));
});

faults!(handle_write, 2, 18, |faults| {
    let s = storage();
    let mut h = handle(&s, 2);
    faults();
    check(h.write(&[1, 2, 3]));
    h.abort();
});

// dropping the handle does not panic
faults!(handle_close, 5, 18, |faults| {
    let s = storage();
    let mut h = handle(&s, 2);
    h.write(&[1, 2, 3]).good();
    faults();
    check(h.close());
});

faults!(new_vector, 5, 18, |faults| {
    let s = storage();
    faults();
    check(create_external_vector::<Opaque<4>>(&s, "v", SCHEMA));
});

faults!(vector_close, 6, 18, |faults| {
    let s = storage();
    let mut v = ExternalVector::<Opaque<4>>::new(handle(&s, 2));
    v.grow().good();
    faults();
    check(v.close());
});

each_fault!(new_multivector, [fault0 0, fault1 1, fault2 2, fault3 3, fault4 4, fault5 5, fault6 6, fault7 7, fault8 8], 18, |faults| {
    let s = storage();
    faults();
    check(create_multi_vector::<Idx, V>(&s, "v", SCHEMA));
});

each_fault!(multivector_close, [fault0 0, fault1 1, fault2 2, fault3 3, fault4 4, fault5 5, fault6 6, fault7 7, fault8 8, fault9 9, fault10 10], 18, |faults| {
    let s = storage();
    let mut v = MultiVector::<Idx, V>::new(ExternalVector::new(handle(&s, 0)), handle(&s, 2));
    v.grow().good().add_a();
    faults();
    check(v.close());
});

each_fault!(new_archive, [fault0 0, fault1 1, fault2 2, fault3 3, fault4 4, fault5 5, fault6 6], 18, |faults| {
    let storage: Rc<dyn ResourceStorage> = Rc::new(Mock::new(["S.archive", "S.archive.schema", "", ""], [0; 4]));
    faults();
    check(crate::arch::SB::new(storage));
});

/// With so much data that it is flushed.
#[cfg(feature = "state")]
mod flushed {
    use super::*;

    fn pending(n: usize) -> Vec<u8> {
        let len: usize = kani::any();
        kani::assume(len > 32 << 20 && len < 64 << 20);
        let data = buffer(len * n + 8 + 8);
        unsafe { Vec::from_raw_parts(data.as_mut_ptr(), len * n + 8, data.len()) }
    }

    faults!(vector_grow, 2, 18, |faults| {
        let s = storage();
        let data = pending(4);
        let len = data.len() / 4 - 2;
        let mut v = ExternalVector::<Opaque<4>>::from_state(data, len, handle(&s, 2));
        faults();
        check(v.grow());
        assert!(v.len() == if failed() { len } else { len + 1 }, "no element is added in case of an error");
        std::mem::forget(v);
    });

    faults!(multivector_grow, 3, 18, |faults| {
        let s = storage();
        let index = pending(8);
        let len = index.len() / 8 - 1;
        let index = ExternalVector::from_state(index, len, handle(&s, 0));
        let data = pending(1);
        let mut v = MultiVector::<Idx, V>::from_state(index, data, 0, handle(&s, 2));
        faults();
        check(v.grow());
        std::mem::forget(v);
    });
}
