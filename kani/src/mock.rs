//! A storage as the trait describes it: every resource is a sequence of bytes.
//!
//! A stream remembers a single byte, at an arbitrary position. So whatever is proved about this byte
//! is proved about every byte of the resource.
use flatdata::contracts::Stream;
use flatdata::{ResourceStorage, ResourceStorageError};
use std::cell::{Cell, RefCell};
use std::io::{self, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct State {
    /// The stream was created.
    pub created: bool,
    /// Position of the cursor.
    pub pos: usize,
    /// Number of bytes in the resource.
    pub len: usize,
    /// Position of the byte which is remembered.
    pub watched: usize,
    /// Value of the byte which is remembered.
    pub byte: u8,
    /// Number of times the byte was written.
    pub written: u8,
}

impl State {
    pub fn watching(watched: usize) -> Self {
        State { created: false, pos: 0, len: 0, watched, byte: 0, written: 0 }
    }
}

/// Number of operations which succeed before one fails.
pub static mut FUEL: u32 = u32::max_value();
/// Whether every operation behind it fails as well.
pub static mut DEAD: bool = false;
/// Whether an operation failed.
pub static mut FAILED: bool = false;
/// Whether the next write may write a part of the data only.
pub static mut PARTIAL: bool = false;

/// The operation behind the next `n` ones fails, and maybe every one behind it.
pub fn fail_after(n: u32, dead: bool) {
    unsafe {
        FUEL = n;
        DEAD = dead;
    }
}

pub fn failed() -> bool {
    unsafe { FAILED }
}

pub fn fails() -> bool {
    unsafe {
        if FUEL == u32::max_value() {
            return false;
        }
        if FUEL > 0 {
            FUEL -= 1;
            return false;
        }
        FAILED = true;
        if !DEAD {
            FUEL = u32::max_value();
        }
        true
    }
}

pub fn error() -> io::Error {
    io::Error::from_raw_os_error(28)
}

pub struct MockStream {
    pub state: &'static Cell<State>,
}

impl MockStream {
    fn put(&mut self, data: &[u8], n: usize) -> io::Result<()> {
        if fails() {
            return Err(error());
        }
        let mut s = self.state.get();
        if s.watched >= s.pos && s.watched - s.pos < n {
            s.byte = data[s.watched - s.pos];
            s.written += 1;
        }
        s.pos += n;
        if s.len < s.pos {
            s.len = s.pos;
        }
        self.state.set(s);
        Ok(())
    }
}

impl Write for MockStream {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let mut n = data.len();
        unsafe {
            if PARTIAL && n > 0 {
                n = kani::any();
                kani::assume(n > 0 && n <= data.len());
                PARTIAL = false;
            }
        }
        match self.put(data, n) {
            Ok(_) => Ok(n),
            Err(e) => Err(e),
        }
    }

    fn write_all(&mut self, data: &[u8]) -> io::Result<()> {
        self.put(data, data.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }

    // nothing is formatted to a stream; the provided method is expensive, even if it is not called
    fn write_fmt(&mut self, _: std::fmt::Arguments) -> io::Result<()> {
        panic!("unexpected formatting")
    }
}

impl Seek for MockStream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if fails() {
            return Err(error());
        }
        let mut s = self.state.get();
        s.pos = match to {
            SeekFrom::Start(pos) => pos as usize,
            SeekFrom::Current(d) => (s.pos as i64 + d) as usize,
            SeekFrom::End(d) => (s.len as i64 + d) as usize,
        };
        self.state.set(s);
        Ok(s.pos as u64)
    }
}

impl Stream for MockStream {}

/// Longest name of a resource.
const NAME: usize = 16;

/// Equality of strings, as a loop of up to `a.len()` steps, even if the other one is not known.
pub fn same(a: &'static str, b: &str) -> bool {
    assert!(a.len() <= NAME, "longest name");
    if a.len() != b.len() {
        return false;
    }
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut equal = true;
    let mut i = 0;
    while i < NAME && i < a.len() {
        equal &= a[i] == b[i];
        i += 1;
    }
    equal
}

pub const SLOTS: usize = 4;

pub struct Mock {
    pub names: [&'static str; SLOTS],
    /// What was written.
    pub states: [&'static Cell<State>; SLOTS],
    /// What is read.
    pub content: [Option<&'static [u8]>; SLOTS],
}

impl Mock {
    pub fn new(names: [&'static str; SLOTS], watched: [usize; SLOTS]) -> Self {
        let s = |i: usize| -> &'static Cell<State> { Box::leak(Box::new(Cell::new(State::watching(watched[i])))) };
        Mock { names, states: [s(0), s(1), s(2), s(3)], content: [None; SLOTS] }
    }

    pub fn slot(&self, name: &str) -> usize {
        let mut i = 0;
        while i < SLOTS {
            if same(self.names[i], name) {
                return i;
            }
            i += 1;
        }
        panic!("unexpected name of a resource");
    }

    pub fn state(&self, slot: usize) -> State {
        self.states[slot].get()
    }
}

impl ResourceStorage for Mock {
    fn subdir(&self, _dir: &str) -> Rc<dyn ResourceStorage> {
        panic!("unexpected subdirectory");
    }

    fn exists(&self, name: &str) -> bool {
        let slot = self.slot(name);
        self.states[slot].get().created || self.content[slot].is_some()
    }

    fn read_resource(&self, name: &str) -> Result<&[u8], io::Error> {
        if fails() {
            return Err(error());
        }
        self.content[self.slot(name)].ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))
    }

    fn create_output_stream(&self, name: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        if fails() {
            return Err(error());
        }
        let slot = self.slot(name);
        let mut s = State::watching(self.states[slot].get().watched);
        s.created = true;
        self.states[slot].set(s);
        Ok(Rc::new(RefCell::new(MockStream { state: self.states[slot] })))
    }
}

/// A storage whose resources are read without the checks of C11: `read` yields the content.
pub struct Plain {
    pub mock: Mock,
    /// Schema a resource is read with.
    pub schemas: [&'static str; SLOTS],
}

impl Plain {
    pub fn open(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        let slot = self.mock.slot(name);
        assert!(same(self.schemas[slot], schema), "schema of the resource");
        self.mock
            .read_resource(name)
            .map_err(|e| ResourceStorageError::from_io_error(e, String::new()))
    }
}

impl ResourceStorage for Plain {
    fn subdir(&self, dir: &str) -> Rc<dyn ResourceStorage> {
        self.mock.subdir(dir)
    }

    fn exists(&self, name: &str) -> bool {
        self.mock.exists(name)
    }

    fn read_resource(&self, name: &str) -> Result<&[u8], io::Error> {
        panic!("read without checks");
    }

    fn create_output_stream(&self, name: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        self.mock.create_output_stream(name)
    }

    fn read(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.open(name, schema)
    }

    fn read_and_check_schema(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.open(name, schema)
    }
}
