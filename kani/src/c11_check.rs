//! C11: reading a resource.
use crate::common::*;
use crate::mock::*;
use flatdata::{ResourceStorage, ResourceStorageError};

const SCHEMA: &str = "abc";

/// Stands in for the differences of two texts, which are for display only.
pub fn no_lines<'a>(_: &'a str, _: &'a str) -> Vec<diff::Result<&'a str>> {
    Vec::new()
}
fn is_text(bytes: &[u8]) -> Result<&str, std::str::Utf8Error> {
    Ok(unsafe { std::str::from_utf8_unchecked(bytes) })
}
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(diff::lines, no_lines)]
#[kani::stub(std::str::from_utf8, is_text)]
fn size() {
    let mut mock = Mock::new(["r", "r.schema", "", ""], [0; 4]);
    let data = buffer(kani::any());
    let header: [u8; 8] = name_bytes(data, 0);
    let data: &'static [u8] = data;
    mock.content[0] = Some(data);
    mock.content[1] = Some(SCHEMA.as_bytes());
    let size = u64::from_le_bytes(header);
    let valid = data.len() >= 16 && size == data.len() as u64 - 16;

    let result = mock.read("r", SCHEMA);

    match &result {
        Ok(r) => {
            assert!(valid);
            assert!(r.len() == data.len() - 16);
            assert!(r.as_ptr() == data[8..].as_ptr());
        }
        Err(e) => {
            assert!(!valid);
            assert!(matches!(e, ResourceStorageError::UnexpectedDataSize));
        }
    }
    kani::cover!(result.is_ok());
    kani::cover!(result.is_err());
    std::mem::forget(result);
}

static mut NOT_UTF8: Option<std::str::Utf8Error> = None;
/// Contract of `from_utf8`: text is text, anything else might be an error.
fn is_text_or_not(bytes: &[u8]) -> Result<&str, std::str::Utf8Error> {
    if bytes == SCHEMA.as_bytes() || kani::any() {
        Ok(unsafe { std::str::from_utf8_unchecked(bytes) })
    } else {
        Err(unsafe { NOT_UTF8.unwrap() })
    }
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(diff::lines, no_lines)]
#[kani::stub(std::str::from_utf8, is_text_or_not)]
fn schema() {
    unsafe { NOT_UTF8 = std::str::from_utf8_mut(&mut [0x80]).err() };
    let mut mock = Mock::new(["r", "r.schema", "", ""], [0; 4]);
    let schema: [u8; 5] = kani::any();
    let schema_len: usize = kani::any();
    kani::assume(schema_len <= 5);
    let schema = Box::leak(Box::new(schema));
    mock.content[0] = Some(&[0; 16]);
    mock.content[1] = Some(&schema[..schema_len]);

    let result = mock.read("r", SCHEMA);

    assert!(result.is_ok() == (&schema[..schema_len] == SCHEMA.as_bytes()));
    kani::cover!(result.is_ok());
    kani::cover!(matches!(result, Err(ResourceStorageError::WrongSignature { .. })));
    kani::cover!(matches!(result, Err(ResourceStorageError::Utf8Error(_))));
    std::mem::forget(result);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(diff::lines, no_lines)]
#[kani::stub(std::str::from_utf8, is_text_or_not)]
fn missing_data() {
    unsafe { NOT_UTF8 = std::str::from_utf8_mut(&mut [0x80]).err() };
    let mut mock = Mock::new(["r", "r.schema", "", ""], [0; 4]);
    mock.content[1] = Some(SCHEMA.as_bytes());
    let result = mock.read("r", SCHEMA);
    assert!(result.is_err());
    kani::cover!(matches!(result, Err(ResourceStorageError::Io(..))));
    std::mem::forget(result);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(diff::lines, no_lines)]
#[kani::stub(std::str::from_utf8, is_text_or_not)]
fn missing_schema() {
    unsafe { NOT_UTF8 = std::str::from_utf8_mut(&mut [0x80]).err() };
    let mut mock = Mock::new(["r", "r.schema", "", ""], [0; 4]);
    mock.content[0] = Some(&[0; 16]);
    let result = mock.read("r", SCHEMA);
    assert!(result.is_err());
    kani::cover!(matches!(result, Err(ResourceStorageError::Io(..))));
    std::mem::forget(result);
}
