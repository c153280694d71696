//! C13: opening archives.
use crate::arch::*;
use crate::common::*;
use flatdata::{Archive, ArrayView, MultiArrayView, Ref, ResourceStorage, ResourceStorageError, Struct};
use std::rc::Rc;

/// A resource which is present iff bit `bit` of the case is set, with any data. Otherwise, it is absent or
/// invalid.
fn resource(s: &Storage, slot: usize, case: u32, bit: u32) -> Option<&'static [u8]> {
    let content = if case >> bit & 1 == 1 { Some(&*buffer(kani::any())) } else { None };
    s.content[slot].set(content);
    s.invalid[slot].set(content.is_none() && kani::any());
    content
}

fn is(data: &[u8], expected: &'static [u8]) -> bool {
    data.as_ptr() == expected.as_ptr() && data.len() == expected.len()
}

fn open<T: Archive>(s: Storage) -> Result<T, ResourceStorageError> {
    T::open(Dir::of(s).1)
}

/// Checks the result, and looks at the archive if it was opened. Yields what is expected.
fn check<T: Archive>(s: Storage, expected: bool, look: impl FnOnce(&T)) -> bool {
    let result = open::<T>(s);
    assert!(result.is_ok() == expected, "whether the archive is opened");
    if let Ok(archive) = &result {
        look(archive);
    }
    std::mem::forget(result);
    expected
}

fn structs(case: u32) -> bool {
    let s = Storage::two("S.archive", "archive S");
    let (signature, a, b) = (resource(&s, SIGNATURE, case, 0), resource(&s, ONE, case, 1), resource(&s, TWO, case, 2));
    let b = b.filter(|b| b.len() == 2);
    let valid = signature.is_some() && a.map_or(false, |a| a.len() == 4);
    check(s, valid, |archive: &S| {
        let data = a.unwrap();
        assert!(archive.a().x() == u32::from_le_bytes([data[0], data[1], data[2], data[3]]), "required struct");
        match (archive.b(), b) {
            (Some(item), Some(data)) => assert!(item.y() == u16::from_le_bytes([data[0], data[1]]), "optional struct"),
            (item, data) => assert!(item.is_none() && data.is_none(), "optional struct"),
        }
    })
}

fn vectors(case: u32) -> bool {
    let s = Storage::two("V.archive", "archive V");
    let (signature, a, b) = (resource(&s, SIGNATURE, case, 0), resource(&s, ONE, case, 1), resource(&s, TWO, case, 2));
    check(s, signature.is_some() && a.is_some(), |archive: &V| {
        let data = a.unwrap();
        let view = archive.a();
        assert!(view.len() == data.len() / 4 && view.as_ref().as_ptr() == data.as_ptr(), "required vector");
        match (archive.b(), b) {
            (Some(view), Some(data)) => {
                assert!(view.len() == data.len() / 2 && view.as_ref().as_ptr() == data.as_ptr(), "optional vector")
            }
            (view, data) => assert!(view.is_none() && data.is_none(), "optional vector"),
        }
    })
}

/// A view to the given data has a bucket with all of it.
fn is_multi(view: &MultiArrayView<Idx, Any>, index: &[u8], data: &'static [u8]) -> bool {
    if view.len() != index.len() / 8 - 1 {
        return false;
    }
    if view.len() == 0 {
        return true;
    }
    match view.at(0).next() {
        Some(item) => data.len() > 0 && item.tag == data[0] && is(item.data, &data[1..]),
        None => data.len() == 0,
    }
}

/// An index whose first bucket, if there is one, has all of the data.
fn assume_bucket(index: Option<&'static [u8]>, data: Option<&'static [u8]>) {
    if let Some(index) = index {
        kani::assume(index.len() >= 8);
        if let Some(data) = data {
            if index.len() >= 16 {
                let mut words = [[0; 8]; 2];
                words[0].copy_from_slice(&index[..8]);
                words[1].copy_from_slice(&index[8..16]);
                kani::assume(words[0] == [0; 8] && usize::from_le_bytes(words[1]) == data.len());
            }
        }
    }
}

fn multivectors(case: u32) -> bool {
    let s = Storage::two("M.archive", "archive M");
    let (signature, a, b) = (resource(&s, SIGNATURE, case, 0), resource(&s, ONE, case, 1), resource(&s, TWO, case, 2));
    let (a_index, b_index) = (resource(&s, ONE_INDEX, case, 3), resource(&s, TWO_INDEX, case, 4));
    assume_bucket(a_index, a);
    assume_bucket(b_index, b);
    let valid = signature.is_some() && a.is_some() && a_index.is_some();
    check(s, valid, |archive: &M| {
        assert!(is_multi(&archive.a(), a_index.unwrap(), a.unwrap()), "required multivector");
        match (archive.b(), b_index, b) {
            (Some(view), Some(index), Some(data)) => assert!(is_multi(&view, index, data), "optional multivector"),
            (view, index, data) => {
                assert!(view.is_none() && (index.is_none() || data.is_none()), "optional multivector")
            }
        }
    })
}

fn raw_data(case: u32) -> bool {
    let s = Storage::two("R.archive", "archive R");
    let (signature, a, b) = (resource(&s, SIGNATURE, case, 0), resource(&s, ONE, case, 1), resource(&s, TWO, case, 2));
    check(s, signature.is_some() && a.is_some(), |archive: &R| {
        assert!(is(archive.a(), a.unwrap()), "required data");
        match (archive.b(), b) {
            (Some(actual), Some(data)) => assert!(is(actual, data), "optional data"),
            (actual, data) => assert!(actual.is_none() && data.is_none(), "optional data"),
        }
    })
}

fn sub(case: u32, bit: u32) -> (&'static Storage, bool, Option<&'static [u8]>) {
    let s = Storage::new(["Sub.archive", "a", "", "", "", ""], ["archive Sub", "sub one", "", "", "", ""]);
    let (signature, a) = (resource(&s, SIGNATURE, case, bit), resource(&s, ONE, case, bit + 1));
    (Box::leak(Box::new(s)), signature.is_some() && a.is_some(), a)
}

/// An optional archive. A required one is among the kinds below.
fn subarchives(case: u32) -> bool {
    let mut s = Storage::two("Q.archive", "archive Q");
    let signature = resource(&s, SIGNATURE, case, 0);
    let (q, valid, a) = sub(case, 1);
    s.dirs[0] = ("q", Some(q));
    check(s, signature.is_some(), |archive: &Q| match archive.q() {
        Some(archive) => assert!(valid && is(archive.a(), a.unwrap()), "optional archive"),
        None => assert!(!valid, "optional archive"),
    })
}

fn kinds(case: u32) -> bool {
    let mut s = Storage::new(
        ["X.archive", "s", "v", "m_index", "m", "r"],
        ["archive X", "schema s", "schema v", "index(schema m)", "schema m", "schema r"],
    );
    let (signature, st, v) = (resource(&s, 0, case, 0), resource(&s, 1, case, 1), resource(&s, 2, case, 2));
    let (index, m, r) = (resource(&s, 3, case, 3), resource(&s, 4, case, 4), resource(&s, 5, case, 5));
    assume_bucket(index, m);
    let (p, p_valid, a) = sub(case, 6);
    s.dirs[0] = ("p", Some(p));
    let all = signature.is_some() && v.is_some() && index.is_some() && m.is_some() && r.is_some() && p_valid;
    check(s, all && st.map_or(false, |x| x.len() == 4), |archive: &X| {
        let data = st.unwrap();
        assert!(archive.s().x() == u32::from_le_bytes([data[0], data[1], data[2], data[3]]), "struct");
        let data = v.unwrap();
        let view = archive.v();
        assert!(view.len() == data.len() / 4 && view.as_ref().as_ptr() == data.as_ptr(), "vector");
        assert!(is_multi(&archive.m(), index.unwrap(), m.unwrap()), "multivector");
        assert!(is(archive.r(), r.unwrap()), "raw data");
        assert!(is(archive.p().a(), a.unwrap()), "archive");
    })
}

macro_rules! harness {
    ($($name:ident),*) => {
        $(
            pub mod $name {
                #[kani::proof]
                #[kani::unwind(18)]
                #[kani::stub(std::fmt::format, super::format)]
                fn open() {
                    let expected = super::$name(kani::any());
                    kani::cover!(expected);
                    kani::cover!(!expected);
                }
            }
        )*
    };
}
harness!(structs, vectors, multivectors, raw_data, subarchives, kinds);
