//! C14: creating archives.
use crate::arch::*;
use crate::common::*;
use crate::mock::*;
use flatdata::{ArchiveBuilder, ResourceStorage, ResourceStorageError};
use flatdata::contracts::Stream;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// A storage in which a resource which exists is valid, or not.
struct Any(Mock);

impl Any {
    fn find(&self, name: &str) -> Result<&[u8], ResourceStorageError> {
        match self.0.content[self.0.slot(name)] {
            Some(data) if kani::any() => Ok(data),
            _ => Err(ResourceStorageError::UnexpectedDataSize),
        }
    }
}

impl ResourceStorage for Any {
    fn subdir(&self, dir: &str) -> Rc<dyn ResourceStorage> {
        self.0.subdir(dir)
    }
    fn exists(&self, name: &str) -> bool {
        self.0.exists(name)
    }
    fn read_resource(&self, name: &str) -> Result<&[u8], io::Error> {
        self.0.read_resource(name)
    }
    fn create_output_stream(&self, name: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        self.0.create_output_stream(name)
    }
    fn read(&self, name: &str, _schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.find(name)
    }
    fn read_and_check_schema(&self, name: &str, _schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.find(name)
    }
}

/// A storage which has the signature of the archive or not, and other resources as well.
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn create() {
    let watched: usize = kani::any();
    let mut mock = Mock::new(["S.archive", "S.archive.schema", "S", "a"], [watched; 4]);
    let exists: bool = kani::any();
    if exists {
        mock.content[0] = Some(buffer(kani::any()));
    }
    for slot in 1..4 {
        if kani::any() {
            mock.content[slot] = Some(&[]);
        }
    }
    let states = mock.states;
    let storage: Rc<dyn ResourceStorage> = Rc::new(Any(mock));
    let result = SB::new(storage);
    if exists {
        match &result {
            Ok(_) => assert!(false, "existing archive is an error"),
            Err(ResourceStorageError::Io(e, _)) => {
                assert!(e.kind() == io::ErrorKind::AlreadyExists, "kind of the error")
            }
            Err(_) => assert!(false, "type of the error"),
        }
        assert!(!states[0].get().created && !states[1].get().created, "storage is as it was");
    } else {
        assert!(result.is_ok(), "archive is created");
        let (signature, schema) = (states[0].get(), states[1].get());
        assert!(signature.len == 16 && schema.len == 9, "size of the signature");
        assert!(watched >= 16 || signature.byte == 0, "signature is a resource without data");
        assert!(watched >= 9 || schema.byte == b"archive S"[watched], "schema of the archive");
    }
    assert!(!states[2].get().created && !states[3].get().created, "other resources are as they were");
    kani::cover!(exists);
    kani::cover!(!exists);
    std::mem::forget(result);
}

/// An archive in a directory of another one.
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(std::fmt::format, format)]
fn subarchive() {
    let mut s = Storage::two("P.archive", "archive P");
    let sub = Storage::new(["Sub.archive", "a", "", "", "", ""], ["archive Sub", "sub one", "", "", "", ""]);
    let sub = &*Box::leak(Box::new(sub));
    let content = if kani::any() { Some(&*buffer(kani::any())) } else { None };
    sub.content[SIGNATURE].set(content);
    sub.invalid[SIGNATURE].set(content.is_none() && kani::any());
    let exists = content.is_some() || sub.invalid[SIGNATURE].get();
    s.dirs[1] = ("b", Some(sub));
    let builder = PB::of(Dir::of(s).1);
    let result = builder.b();
    assert!(result.is_err() == exists, "existing archive is an error");
    let signature = sub.content[SIGNATURE].get();
    if exists {
        assert!(signature.map(|x| (x.as_ptr(), x.len())) == content.map(|x| (x.as_ptr(), x.len())), "signature is as it was");
    } else {
        assert!(signature.map_or(false, |x| x.len() == 0), "signature");
    }
    kani::cover!(exists);
    kani::cover!(!exists);
    std::mem::forget(result);
}
