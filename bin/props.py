"""What is checked for each property."""
TRUSTED = [
    "rustc, Kani 0.68.0 (translation of MIR to GOTO), CBMC 6.11.0 and its SAT solver",
    "Kani's models of intrinsics, of the allocator (an allocation succeeds) and of panics",
    "objects are smaller than 16 GiB (1 TiB if thorough); sizes are symbolic below that",
]

# Calls which have to panic, as in release builds. Contracts are off, since they check preconditions.
# Where a check for overflow is what panics, its counterexample is run by a build without them.
PANICS = dict(name="panics", features=["panics"], plain=True, rustflags="-C debug-assertions=off", replay_flags="-C overflow-checks=off")

PROPS = {
    "C01": dict(
        functions=["read_bytes! (src/bytereader.rs): every arm, for u8..u64, i8..i64, bool",
                   "masked!, num_bytes!, extend_sign! and trait Int (src/helper.rs): as expanded in read_bytes!"],
        passes=[dict(name="main", feature="c01")],
        note="Deductive proof for every buffer, bit offset, width and type; machine arithmetic is exact (bit-vectors).",
        assumptions=["the host is little-endian", "the caller passes a pointer to a buffer which covers the field (as the accessors of structs do)"],
    ),
    "C02": dict(
        functions=["write_bytes! (src/bytewriter.rs): every arm, for u8..u64, i8..i64, bool",
                   "masked!, num_bytes! and trait Int (src/helper.rs): as expanded in write_bytes!"],
        passes=[dict(name="main", feature="c02")],
        note="Deductive proof for every buffer, bit offset, width, type and value: each bit of the buffer afterwards is a function of its position.",
        assumptions=["the host is little-endian"],
    ),
    "C03": dict(
        functions=["define_struct!: getters, setters, fill_from, into_ref, PartialEq, create, create_mut (src/archive.rs)",
                   "define_index!: index, set_index (src/archive.rs)", "StructBuf::new, get, get_mut, as_bytes (src/structbuf.rs)"],
        passes=[dict(name="main", feature="c03")],
        note="Proof for every layout of two fields (symbolic offsets and widths) and every content.",
        assumptions=["structs have at most 12 bytes; types of fields are the ones instantiated in the harness"],
    ),
    "C05": dict(
        functions=["ArrayView::len, at, slice (src/arrayview.rs): contracts in place"],
        passes=[dict(name="main", feature="c05"), dict(PANICS, feature="c05")],
        note="Function contracts on the real methods, for every data, index and range; sizes of structs 1, 3 and 4.",
    ),
    "C04": dict(
        functions=["Vector::new, with_len, default, len, is_empty, size_in_bytes, as_bytes, as_ref, as_view, at, at_mut, grow, reserve, clone (src/vector.rs)",
                   "From<&Vector> for ArrayView"],
        passes=[dict(name="main", feature="c04"), dict(PANICS, feature="c04")],
        note="Each method is proved for every vector (any length, with and without spare capacity) and any element of it, so any history of calls is covered by induction.",
        bounded=[(r"size1::|size3::|size4::|grow", "vectors of less than 1 KiB, of any length below it")],
        assumptions=["structs of 1, 3 and 4 bytes"],
    ),
    "C06": dict(
        functions=["ArrayViewIter: next, next_back, size_hint, len, count, last, nth, nth_back, clone", "ArrayView::iter, IntoIterator for ArrayView and &ArrayView (src/arrayview.rs)"],
        passes=[dict(name="main", feature="c06")],
        note="One step in any direction is proved for every iterator (`rest` gives the state of one behind the step), so any interleaving is covered by induction.",
        bounded=[(r"four_steps", "four steps"), (r"provided_methods", "up to three items")],
        assumptions=["structs of 1, 3 and 4 bytes; data of structs of 3 bytes is smaller than 4 KiB"],
    ),
    "C07": dict(
        functions=["ExternalVector::new, len, is_empty, is_open, grow, flush, close (src/vector.rs)", "create_external_vector, create_resource, ResourceHandle::try_new, write, close (src/storage.rs)"],
        passes=[dict(name="main", feature="c07")],
        note="grow and close are proved from every state (any number of flushed and pending elements, up to 64 MiB pending, so before and behind the limit for a flush); by induction, this covers every history.",
        design="Oracle: the content of the vector, i.e. stream followed by pending data, is the sequence of elements; followed at an arbitrary position. The states are made by a guarded constructor, which takes the pending data.",
        bounded=[(r"sequence", "up to three elements, without access to the state"), (r"grow_small", "less than 1 KiB pending, buffer is reallocated")],
        assumptions=["structs of 1 and 4 bytes", "a buffer of more than 1 KiB has capacity for one more element: the copy is up to Vec"],
        trusted=["thorough: contract of Vec::resize for bytes (stub) in sequence_40_mib"],
    ),
    "C08": dict(
        functions=["MultiVector::new, grow, flush, add_to_index, close (src/multivector.rs)", "create_multi_vector, create_resource (src/storage.rs)",
                   "define_variadic_struct!: create_mut, item builders add_* (src/archive.rs)"],
        passes=[dict(name="main", feature="c08")],
        note="grow, close, and adding an item of each type are proved from every state (any data, of which any part is flushed), against the contracts of ExternalVector and of ResourceHandle::close; by induction, this covers every history.",
        design="Modular: ExternalVector::grow and close, and ResourceHandle::close, are replaced by their contracts (stubs), which C07 and C10 discharge. An arbitrary byte of the data (stream, then pending data) is followed. A counterexample runs on the real callees.",
        bounded=[(r"sequence", "two buckets, without access to the state"), (r"add_._small", "less than 256 bytes pending, buffer is reallocated")],
        assumptions=["three types of items (4, 1 and 3 bytes), tags 0, 1 and 7", "data pending when grow or close is called is less than 64 MiB",
                     "a buffer of more than 256 bytes has capacity for one more item: the copy is up to Vec"],
        trusted=["contracts of ExternalVector::grow, close (proved for C07) and ResourceHandle::close (C10), as stubs", "contract of format! for strings (stub) in create and schemas"],
    ),
    "C09": dict(
        functions=["MultiArrayView::new, len, is_empty, at, slice, iter, clone (src/multiarrayview.rs)", "MultiArrayViewItemIter::next; MultiArrayViewIter: next, next_back, size_hint, len",
                   "IntoIterator for MultiArrayView and &MultiArrayView", "define_index!: index; define_variadic_struct!: create, size_in_bytes (src/archive.rs)"],
        passes=[dict(name="main", feature="c09"), dict(PANICS, feature="c09", harness=["c09_panics"])],
        note="at, slice, and one step of the iterators are proved for every index and data; by induction, this covers every item of a bucket, every sequence of slices and of steps.",
        design="Oracle: a bucket consists of the bytes between two entries of the index, decoded from its raw bytes; an item is identified by its tag and its place in memory, for a variadic type with items of any size. A bucket starts at an arbitrary place, so the first two items of it are a step from any state.",
        bounded=[(r"two_steps|provided", "two steps, or one call, for views with up to three buckets"), (r"two_items", "two items")],
        assumptions=["index of 8 bytes (steps of an iterator: 2 bytes); generated types with three kinds of items"],
    ),
    "C10": dict(
        functions=["ResourceStorage::write, write_to_stream, write_schema, write_size, write_padding, ResourceHandle::try_new, write, close (src/storage.rs)"],
        passes=[dict(name="main", feature="c10")],
        note="Proof for every data and every position of the resource; for a handle, data which is written in two pieces of any size. Streams which take a part of the data only are included.",
        design="One write to a handle in any state (what is before it is arbitrary data of any size) is a step, so any number of writes is covered by induction.",
    ),
    "C11": dict(
        functions=["ResourceStorage::read, read_and_check_schema, ResourceStorageError::from_io_error"],
        passes=[dict(name="main", feature="c11")],
        note="Proof for every data (any length); schemas are compared for any stored schema of up to five bytes.",
        trusted=["contract of std::str::from_utf8 (stub): valid text is accepted", "diff::lines (stub) only makes the message of an error"],
    ),
}

PROPS.update({
    "C12": dict(
        functions=["ResourceStorage::write, write_to_stream, write_schema, write_size, write_padding (src/storage.rs)",
                   "ResourceHandle::try_new, write, close, abort, drop; create_resource, create_external_vector, create_multi_vector, create_archive (src/storage.rs)",
                   "ExternalVector::grow, flush, close, drop (src/vector.rs)", "MultiVector::grow, flush, close, drop (src/multivector.rs)"],
        passes=[dict(name="main", feature="c12")],
        note="For every operation of the storage and its streams within each call, that one fails, alone or with all operations after it. What the storage contains is concrete, since control flow does not depend on it; the size of pending data is symbolic.",
        design="Each place of a fault is a case of its own, up to the first place behind the last operation: a `cover` shows that it is not reached. Postcondition: the call returns an error iff an operation failed; no panic, no panic on drop. Each call starts from an object for which no call failed; after a failed one, all that is left to do is to drop it.",
        assumptions=["the data which is written, apart from what is pending, is a few bytes"],
        trusted=["contract of format! for strings (stub): returns the text"],
    ),
    "C13": dict(
        functions=["define_archive!: open, read_resource, check_resource, getters, check_signature for each kind of resource (src/archive.rs)",
                   "ArrayView::new, MultiArrayView::new as the getters use them"],
        passes=[dict(name="main", feature="c13")],
        note="Proof for archives with a required and an optional resource of each kind, and for one which has all kinds: any subset of the resources is present, with any data of any size; others are absent or invalid.",
        design="Modular: the storage is the contract of `read` (C11): it yields the data iff the resource is valid and is read with its own name and schema. Oracle: what is present, and the place in memory of the data.",
        assumptions=["archives are instances of define_archive! with up to two resources of a kind"],
        trusted=["contract of ResourceStorage::read (C11)", "contract of format! for strings (stub): returns the text"],
    ),
    "C14": dict(
        functions=["create_archive (src/storage.rs)", "define_archive!: new and getters of subarchives of the builder (src/archive.rs)", "ResourceStorage::write"],
        passes=[dict(name="main", feature="c14")],
        note="Proof for any storage: with or without the signature, of any content, and with or without other resources.",
        assumptions=["archives are instances of define_archive!"],
        trusted=["contract of format! for strings (stub): returns the text"],
    ),
    "C15": dict(
        functions=["define_archive!: setters, start functions and subarchives of the builder; open, getters (src/archive.rs)", "create_external_vector, create_multi_vector, create_resource (src/storage.rs)"],
        passes=[dict(name="main", feature="c15")],
        note="Proof for every content of any size: what the builder writes with its name and schema is what the getter of the archive yields, for each kind of resource.",
        design="The storage fails a proof if a resource is accessed with a schema, or a name, which is not its own; data set by the builder is identified by its place in memory. Streams which the builder starts have the names and schemas with which C13 proves that they are read; what is written to them is up to C07 and C08.",
        assumptions=["archives are instances of define_archive! with up to two resources of a kind"],
        trusted=["contracts of ResourceStorage::read (C11) and ResourceStorage::write (C10)", "contract of format! for strings (stub): returns the text"],
    ),
    "C18": dict(
        functions=["ResourceHandle::drop, is_open, write, close (src/storage.rs)", "drop of ExternalVector (src/vector.rs) and MultiVector (src/multivector.rs)"],
        passes=[dict(name="main", feature="c18"), dict(PANICS, feature="c18", harness=["c18_panics"])],
        note="Dropping panics in each open state; a closed handle, whichever operation of close failed, is dropped silently, and every call is an error which writes nothing. A call keeps the handle closed, so this is any sequence of calls.",
        assumptions=["a multivector which is dropped has up to one bucket with one item; data written to handles is of any size"],
    ),
})

NOT_APPLICABLE = {
    "C16": "No proof within reach yet: MemoryResourceStorage keys BTreeMaps by PathBuf; symbolic execution of their comparisons does not terminate within the limits, and a contract in place of the maps would assume the property.",
    "C17": "File system calls and mmap are foreign functions, for which the verifier has no semantics: contracts for them would be assumed wholesale, and the property is about nothing else.",
}
