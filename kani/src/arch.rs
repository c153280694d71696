//! Archives with resources of each kind, required and optional, and a storage for them.
//!
//! The storage is what C10 and C11 prove: `read` yields what was written with the same name and the same
//! schema, if there is such a resource, and an error otherwise.
use crate::mock::{error, fails, same, MockStream, State};
use flatdata::contracts::Stream;
use flatdata::{ResourceStorage, ResourceStorageError, TypeIndex, VariadicRef, VariadicStruct};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

define_struct!(A, RefA, RefMutA, "a", 4, (x, set_x, u32, 0, 32));
define_struct!(B, RefB, RefMutB, "b", 2, (y, set_y, u16, 0, 16));
define_index!(Idx, RefIdx, RefMutIdx, "index", 8, 64);

/// Any variadic type. An item is identified by its place in memory.
#[derive(Clone)]
pub struct Any;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RefAny<'a> {
    pub tag: TypeIndex,
    pub data: &'a [u8],
}
impl<'a> VariadicRef for RefAny<'a> {
    fn size_in_bytes(&self) -> usize {
        0
    }
}
impl<'a> VariadicStruct<'a> for Any {
    type Item = RefAny<'a>;
    fn create(tag: TypeIndex, data: &'a [u8]) -> RefAny<'a> {
        RefAny { tag, data }
    }
    type ItemMut = ();
    fn create_mut(_: &'a mut Vec<u8>) {}
}

define_archive!(S, SB, "archive S"; (a, set_a, A, "one", false), (b, set_b, B, "two", true); ; ; ; );
define_archive!(V, VB, "archive V"; ; (a, set_a, start_a, A, "one", false), (b, set_b, start_b, B, "two", true); ; ; );
define_archive!(M, MB, "archive M"; ; ; (a, start_a, Any, "one", a_index, Idx, false), (b, start_b, Any, "two", b_index, Idx, true); ; );
define_archive!(R, RB, "archive R"; ; ; ; (a, set_a, "one", false), (b, set_b, "two", true); );
define_archive!(Sub, SubB, "archive Sub"; ; ; ; (a, set_a, "sub one", false); );
define_archive!(P, PB, "archive P"; ; ; ; ; (a, Sub, SubB, "one", false), (b, Sub, SubB, "two", true));
define_archive!(Q, QB, "archive Q"; ; ; ; ; (q, Sub, SubB, "two", true));
// one of each kind, in a storage of their own
define_archive!(X, XB, "archive X";
    (s, set_s, A, "schema s", false);
    (v, set_v, start_v, A, "schema v", false);
    (m, start_m, Any, "schema m", m_index, Idx, false);
    (r, set_r, "schema r", false);
    (p, Sub, SubB, "schema p", false));

/// Builders of archives which are created already.
macro_rules! builders {
    ($($builder:ident),*) => {
        $(
            impl $builder {
                pub fn of(storage: Rc<dyn ResourceStorage>) -> Self {
                    $builder { storage }
                }
            }
        )*
    };
}
builders!(SB, VB, MB, RB, SubB, PB, XB);

/// Resources with two of a kind: signature, and the resources.
pub const SIGNATURE: usize = 0;
pub const ONE: usize = 1;
pub const TWO: usize = 2;
pub const ONE_INDEX: usize = 3;
pub const TWO_INDEX: usize = 4;

pub const SLOTS: usize = 6;

pub struct Storage {
    pub names: [&'static str; SLOTS],
    pub schemas: [&'static str; SLOTS],
    pub content: [Cell<Option<&'static [u8]>>; SLOTS],
    /// A resource without content may exist, but is not valid.
    pub invalid: [Cell<bool>; SLOTS],
    /// Streams of resources, and of their schemas.
    pub streams: [&'static Cell<State>; SLOTS],
    pub schema_names: [&'static str; SLOTS],
    pub schema_streams: [&'static Cell<State>; SLOTS],
    /// Names of the directories below, and their content.
    pub dirs: [(&'static str, Option<&'static Storage>); 2],
}

impl Storage {
    pub fn new(names: [&'static str; SLOTS], schemas: [&'static str; SLOTS]) -> Self {
        let c = || Cell::new(None);
        let f = || Cell::new(false);
        let s = || -> &'static Cell<State> { Box::leak(Box::new(Cell::new(State::watching(kani::any())))) };
        Storage {
            names,
            schemas,
            content: [c(), c(), c(), c(), c(), c()],
            invalid: [f(), f(), f(), f(), f(), f()],
            streams: [s(), s(), s(), s(), s(), s()],
            schema_names: [""; SLOTS],
            schema_streams: [s(), s(), s(), s(), s(), s()],
            dirs: [("", None), ("", None)],
        }
    }

    /// For an archive with two resources of the same kind.
    pub fn two(signature: &'static str, schema: &'static str) -> Self {
        let mut s = Storage::new(
            [signature, "a", "b", "a_index", "b_index", ""],
            [schema, "one", "two", "index(one)", "index(two)", ""],
        );
        s.schema_names = ["", "a.schema", "b.schema", "a_index.schema", "b_index.schema", ""];
        s
    }

    pub fn slot(&self, name: &str) -> usize {
        let mut i = 0;
        while i < SLOTS {
            if same(self.names[i], name) {
                return i;
            }
            i += 1;
        }
        panic!("unexpected name of a resource");
    }

    /// A stream of the resource was created, with its schema.
    pub fn is_started(&self, slot: usize) -> bool {
        let (state, schema) = (self.schema_streams[slot].get(), self.schemas[slot]);
        self.streams[slot].get().created
            && state.len == schema.len()
            && (state.watched >= schema.len() || state.byte == schema.as_bytes()[state.watched])
    }

    fn find(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        let slot = self.slot(name);
        if !same(self.schemas[slot], schema) {
            return Err(ResourceStorageError::UnexpectedDataSize);
        }
        self.content[slot].get().ok_or(ResourceStorageError::UnexpectedDataSize)
    }
}

/// The storage, as it is passed to an archive. Nothing has to be dropped with it.
pub struct Dir(pub &'static Storage);

impl Dir {
    pub fn of(storage: Storage) -> (&'static Storage, Rc<dyn ResourceStorage>) {
        let storage = &*Box::leak(Box::new(storage));
        (storage, Rc::new(Dir(storage)))
    }
}

impl ResourceStorage for Dir {
    fn subdir(&self, dir: &str) -> Rc<dyn ResourceStorage> {
        let i = if same(self.0.dirs[0].0, dir) { 0 } else { 1 };
        assert!(same(self.0.dirs[i].0, dir), "name of a directory");
        match self.0.dirs[i].1 {
            Some(storage) => Rc::new(Dir(storage)),
            None => panic!("unexpected directory"),
        }
    }

    fn exists(&self, name: &str) -> bool {
        let slot = self.0.slot(name);
        self.0.content[slot].get().is_some() || self.0.invalid[slot].get()
    }

    fn read_resource(&self, _name: &str) -> Result<&[u8], io::Error> {
        panic!("read without checks");
    }

    fn create_output_stream(&self, name: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        let mut i = 0;
        while i < SLOTS && !same(self.0.schema_names[i], name) {
            i += 1;
        }
        let state = if i < SLOTS { self.0.schema_streams[i] } else { self.0.streams[self.0.slot(name)] };
        let mut s = state.get();
        assert!(!s.created, "stream is created once");
        s.created = true;
        state.set(s);
        Ok(Rc::new(RefCell::new(MockStream { state })))
    }

    fn read(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.0.find(name, schema)
    }

    fn read_and_check_schema(&self, name: &str, schema: &str) -> Result<&[u8], ResourceStorageError> {
        self.0.find(name, schema)
    }

    fn write(&self, name: &str, schema: &str, data: &[u8]) -> io::Result<()> {
        if fails() {
            return Err(error());
        }
        let slot = self.0.slot(name);
        assert!(same(self.0.schemas[slot], schema), "schema of the resource");
        // the data outlives the storage
        self.0.content[slot].set(Some(unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) }));
        Ok(())
    }
}
