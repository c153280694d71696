//! C15: what a builder writes is what the archive reads.
use crate::arch::*;
use crate::common::*;
use flatdata::{Archive, ArchiveBuilder, ArrayView, MultiArrayView, Ref, ResourceStorage, ResourceStorageError, Struct};
use std::rc::Rc;

fn any_data() -> &'static [u8] {
    buffer(kani::any())
}

fn opened<T>(result: &Result<T, ResourceStorageError>) -> &T {
    match result {
        Ok(archive) => archive,
        Err(_) => panic!("archive is not opened"),
    }
}

fn is(actual: Option<&[u8]>, expected: Option<&'static [u8]>) -> bool {
    match (actual, expected) {
        (Some(a), Some(b)) => a.as_ptr() == b.as_ptr() && a.len() == b.len(),
        (a, b) => a.is_none() && b.is_none(),
    }
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn structs() {
    let (s, dir) = Dir::of(Storage::two("S.archive", "archive S"));
    let builder = SB::of(dir.clone());
    let (a, b): (&'static mut [u8], &'static mut [u8]) = (buffer(4), buffer(2));
    let (x, y) = (u32::from_le_bytes([a[0], a[1], a[2], a[3]]), u16::from_le_bytes([b[0], b[1]]));
    builder.set_b(B::create(b)).good();
    builder.set_a(A::create(a)).good();
    s.content[SIGNATURE].set(Some(&[]));
    let result = S::open(dir);
    let archive = opened(&result);
    assert!(archive.a().x() == x, "required struct");
    assert!(archive.b().map(|b| b.y()) == Some(y), "optional struct");
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn vectors() {
    let (s, dir) = Dir::of(Storage::two("V.archive", "archive V"));
    let builder = VB::of(dir.clone());
    let (a, b) = (any_data(), any_data());
    kani::assume(a.len() % 4 == 0 && b.len() % 2 == 0);
    builder.set_b(&ArrayView::new(b)).good();
    builder.set_a(&ArrayView::new(a)).good();
    s.content[SIGNATURE].set(Some(&[]));
    let result = V::open(dir);
    let archive = opened(&result);
    assert!(is(Some(archive.a().as_ref()), Some(a)), "required vector");
    let view = archive.b();
    assert!(is(view.as_ref().map(|x| x.as_ref()), Some(b)), "optional vector");
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn raw_data() {
    let (s, dir) = Dir::of(Storage::two("R.archive", "archive R"));
    let builder = RB::of(dir.clone());
    let (a, b) = (any_data(), any_data());
    builder.set_b(b).good();
    builder.set_a(a).good();
    s.content[SIGNATURE].set(Some(&[]));
    let result = R::open(dir);
    let archive = opened(&result);
    assert!(is(Some(archive.a()), Some(a)), "required data");
    assert!(is(archive.b(), Some(b)), "optional data");
}

fn sub() -> &'static Storage {
    let s = Storage::new(["Sub.archive", "a", "", "", "", ""], ["archive Sub", "sub one", "", "", "", ""]);
    Box::leak(Box::new(s))
}

/// Builders of archives in a directory write their signatures there.
fn subarchive_builder(second: bool) {
    let mut s = Storage::two("P.archive", "archive P");
    let (sub_a, sub_b) = (sub(), sub());
    s.dirs = [("a", Some(sub_a)), ("b", Some(sub_b))];
    let builder = PB::of(Dir::of(s).1);
    let result = if second { builder.b() } else { builder.a() };
    assert!(result.is_ok(), "archive is created");
    let (this, other) = if second { (sub_b, sub_a) } else { (sub_a, sub_b) };
    assert!(this.content[SIGNATURE].get().is_some() && other.content[SIGNATURE].get().is_none(), "directory");
    std::mem::forget(result);
}
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn subarchive_builder_a() {
    subarchive_builder(false)
}
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn subarchive_builder_b() {
    subarchive_builder(true)
}

/// Names and schemas of streams are the ones with which the archive reads them. What is written is up to C07
/// and C08.
macro_rules! started {
    ($name:ident, $archive:ident, $builder:ident, $start:ident, $signature:expr, $schema:expr, $slots:expr) => {
        #[kani::proof]
        #[kani::unwind(18)]
        #[kani::stub(std::fmt::format, format)]
        fn $name() {
            let (s, dir) = Dir::of(Storage::two($signature, $schema));
            let builder = $builder::of(dir);
            let result = builder.$start();
            assert!(result.is_ok(), "resource is started");
            std::mem::forget(result);
            for slot in $slots {
                assert!(s.is_started(slot), "resource is started");
            }
        }
    };
}
started!(start_vector, V, VB, start_a, "V.archive", "archive V", [ONE]);
started!(start_optional_vector, V, VB, start_b, "V.archive", "archive V", [TWO]);
started!(start_multivector, M, MB, start_a, "M.archive", "archive M", [ONE, ONE_INDEX]);
started!(start_optional_multivector, M, MB, start_b, "M.archive", "archive M", [TWO, TWO_INDEX]);
