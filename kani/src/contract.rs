//! What multivectors know about external vectors and about closing a resource: their contracts, which
//! C07 and C10 prove. The state is the part of it a multivector can observe.
use crate::mock::*;
use flatdata::contracts::ResourceHandle;
use flatdata::{ExternalVector, Struct};
use flatdata::{ArrayView, ResourceStorageError};
use std::io;

/// Size of an entry of the index.
const I: usize = 8;

/// Last entry of the index.
pub static mut ENTRY: [u8; I] = [0; I];
/// Number of entries which were added to the index.
pub static mut GROWN: usize = 0;
pub static mut INDEX_CLOSED: bool = false;
pub static mut DATA_CLOSED: bool = false;

/// Contents of closed resources: a bucket with an item.
pub const INDEX: &[u8] = &[0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0];
pub const DATA: &[u8] = &[1, 42];

/// Adds an element which is zero, and provides access to it.
pub fn grow<'a, 's, T>(v: &'s mut ExternalVector<'a, T>) -> io::Result<<T as Struct<'s>>::ItemMut>
where
    'a: 'a,
    T: for<'b> Struct<'b>,
{
    if fails() {
        return Err(error());
    }
    unsafe {
        assert!(!INDEX_CLOSED, "closed index");
        assert!(<T as Struct>::SIZE_IN_BYTES == I, "entries of the index");
        GROWN += 1;
        ENTRY = [0; I];
        Ok(<T as Struct>::create_mut(&mut ENTRY))
    }
}

/// Stores all elements, and yields a view to them.
pub fn close<'a, T>(v: ExternalVector<'a, T>) -> Result<ArrayView<'a, T>, ResourceStorageError>
where
    'a: 'a,
    T: for<'b> Struct<'b>,
{
    std::mem::forget(v);
    unsafe {
        assert!(!INDEX_CLOSED, "closed index");
        INDEX_CLOSED = true;
    }
    if fails() {
        return Err(ResourceStorageError::UnexpectedDataSize);
    }
    Ok(ArrayView::new(INDEX))
}

/// Completes the resource, and yields its data.
pub fn close_handle<'a>(handle: &mut ResourceHandle<'a>) -> Result<&'a [u8], ResourceStorageError>
where
    'a: 'a,
{
    assert!(handle.is_open(), "closed handle");
    handle.abort();
    unsafe {
        DATA_CLOSED = true;
    }
    if fails() {
        return Err(ResourceStorageError::UnexpectedDataSize);
    }
    Ok(DATA)
}
