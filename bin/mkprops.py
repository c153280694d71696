#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Reading a packed integer field yields exactly the bits of the field",
     "Reading a field of any integer type or bool at any bit offset with any width from 1 to the width of the type yields exactly the bits stored at that position of the little-endian bit stream: zero-extended if the type is unsigned, sign-extended from the highest bit of the field if it is signed and wider than one bit, and for bool true iff a bit is set. No byte outside of the bytes which the field overlaps is read.",
     ["inputs"], "all buffers, bit offsets, widths (1 to the size of the type) and types u8..u64, i8..i64, bool",
     "The tests read a single set bit or small fixed patterns at a few offsets; they never read fields of 57 to 64 bits that overlap nine bytes and never check for accesses outside of the buffer.",
     ["src/bytereader.rs", "src/helper.rs"], [("read_bytes!", "src/bytereader.rs"), ("masked!, num_bytes!, extend_sign!", "src/helper.rs")],
     observe=["value of read_bytes!", "getters of structs"])
prop("C02", "Writing a packed integer field stores its low bits and nothing else",
     "Writing a value to a field of any integer type or bool at any bit offset with any width stores exactly the lowest bits of the value in the field, and leaves every other bit of the buffer unchanged. Reading the field afterwards yields the value, provided it fits.",
     ["inputs"], "all buffers, bit offsets, widths (1 to the size of the type), values and types u8..u64, i8..i64, bool",
     "The tests write a few values into zeroed buffers, so neither dirty neighbours, nor values that do not fit, nor fields that overlap nine bytes occur.",
     ["src/bytewriter.rs", "src/helper.rs"], [("write_bytes!", "src/bytewriter.rs"), ("masked!, num_bytes!", "src/helper.rs")],
     observe=["buffer after write_bytes!", "setters of structs"])
prop("C03", "Fields of a struct are independent and accessors address their own field",
     "For every struct layout whose fields do not overlap, a setter changes exactly the bits of its own field, every getter returns the bits of its own field, and filling a struct from another one copies every field. Two structs compare equal iff all their fields are equal, regardless of bits which belong to no field; the range of an index struct is read from and written to its only field, and a struct buffer starts zeroed.",
     ["inputs", "programs"], "all contents, values and layouts (offsets and widths of fields)",
     "Tests define a handful of layouts and set fields of zeroed structs to a few values.",
     ["src/archive.rs", "src/structbuf.rs"], [("define_struct!", "src/archive.rs"), ("define_index!", "src/archive.rs"), ("StructBuf", "src/structbuf.rs")],
     observe=["getters, setters, fill_from, PartialEq of generated structs", "StructBuf::get/get_mut/as_bytes"])
prop("C04", "A vector is a growable sequence of zero-initialised structs",
     "A vector has the length it was created with plus the number of times it was grown, a new element is all zeros, and growing, reserving and writing through one element never change another element. The view and the bytes of a vector consist of exactly its elements in order, and accessing an element behind the last one panics.",
     ["histories", "inputs"], "all sequences of operations, all lengths, indices and sizes of structs",
     "Tests grow a vector a few times with one struct and never write to one element while comparing all others, nor access elements out of bounds.",
     ["src/vector.rs"], [("Vector", "src/vector.rs")], state=[("Vector::data", "bytes of all elements followed by padding", "src/vector.rs")],
     observe=["len, at, at_mut, as_view, as_bytes"])
prop("C05", "Array views give exactly the requested elements and never leave their bounds",
     "An array view over some bytes has as many elements as fit completely, element i consists of the bytes i*size to (i+1)*size, and slicing by any kind of range gives the view of exactly the elements in this range. Access with an index or a range out of bounds panics, in debug as well as in release builds, and never yields data.",
     ["inputs"], "all data lengths, indices, ranges (included, excluded, unbounded ends) and sizes of structs",
     "Tests use short views and in-bounds ranges; huge indices, whose byte offsets wrap around, and inclusive ends do not occur.",
     ["src/arrayview.rs"], [("ArrayView::at, slice, len", "src/arrayview.rs")], observe=["ArrayView::at, slice, len, is_empty, as_bytes"])
prop("C06", "Iterating over an array view yields each element once, from both ends",
     "An iterator over an array view yields exactly the elements of the view in order, and from the back in reverse order; interleaving both directions in any way yields each element exactly once and then nothing, again and again. At any time its length and size hint are the number of elements left.",
     ["inputs", "histories"], "all views and all interleavings of next and next_back",
     "Tests iterate forward or backward over a few elements; they do not interleave directions, and do not look at the remaining length in between.",
     ["src/arrayview.rs"], [("ArrayViewIter", "src/arrayview.rs")], state=[("ArrayViewIter::view", "elements which are left", "src/arrayview.rs")],
     observe=["next, next_back, len, size_hint"], hook="access to the rest of an iterator")
prop("C07", "A closed external vector contains every grown element, wherever it was flushed",
     "After any number of elements was grown and filled, closing an external vector stores exactly these elements in order, once each, no matter how they were distributed to flushes. Its length is the number of elements grown so far, every new element is all zeros, and the view returned by close has all elements.",
     ["histories", "inputs"], "all numbers of elements, contents, and positions of automatic flushes",
     "Flushing happens each 32 MB, which no test reaches: the boundary, and what is kept from before it, is never exercised.",
     ["src/vector.rs", "src/storage.rs"], [("ExternalVector::grow, flush, close", "src/vector.rs"), ("ResourceHandle::write, close", "src/storage.rs")],
     state=[("ExternalVector::data", "elements not flushed yet", "src/vector.rs"), ("ExternalVector::len", "number of elements", "src/vector.rs")],
     observe=["content of the resource", "len", "result of close"], hook="construction of an external vector with arbitrary pending data")
prop("C08", "A multivector stores each item in its own bucket, in order",
     "After any sequence of growing buckets and adding items of any type, the closed multivector has one bucket per grow, and bucket i consists of exactly the items added to it, in order, with their types and contents. Index entries refer to the begin of each bucket, with a sentinel at the end, wherever data was flushed.",
     ["histories", "inputs"], "all sequences of grow and add, all types and contents of items, all positions of automatic flushes",
     "Tests build one multivector of few items, which is never flushed before it is closed.",
     ["src/multivector.rs", "src/archive.rs"], [("MultiVector::grow, close", "src/multivector.rs"), ("define_variadic_struct!", "src/archive.rs")],
     state=[("MultiVector::data", "items not flushed yet", "src/multivector.rs"), ("MultiVector::size_flushed", "size of items flushed", "src/multivector.rs")],
     observe=["content of both resources", "result of close"], hook="construction of a multivector with arbitrary pending data")
prop("C09", "A multiarray view yields exactly the items of each bucket",
     "For every valid index and data, bucket i of a multiarray view iterates over exactly the items stored between the positions of index entries i and i+1, each decoded with the type of its tag and with its own bytes. Slicing and iterating over the view select the buckets in the range; bucket numbers or ranges out of bounds panic instead of yielding data.",
     ["inputs", "histories"], "all indices, data, bucket numbers and ranges",
     "Tests read one small multivector, in bounds, with few item types.",
     ["src/multiarrayview.rs", "src/archive.rs"], [("MultiArrayView::at, slice, iter", "src/multiarrayview.rs"), ("MultiArrayViewItemIter::next", "src/multiarrayview.rs"), ("define_variadic_struct!", "src/archive.rs")],
     state=[("MultiArrayViewItemIter::data", "items which are left", "src/multiarrayview.rs")],
     observe=["items of buckets, length and items of slices"], hook="access to the rest of an iterator")
prop("C10", "A stored resource consists of header, data, padding, and its schema aside",
     "Writing a resource stores its size as little-endian u64, then exactly its data, then eight zero bytes, and stores the schema text in the resource with the same name and suffix .schema. A resource which is written piecewise through a handle ends up with exactly the same bytes, as soon as it is closed.",
     ["inputs", "histories"], "all data, and all ways to split it into writes",
     "Tests write a few resources of some bytes.",
     ["src/storage.rs"], [("ResourceStorage::write", "src/storage.rs"), ("ResourceHandle", "src/storage.rs"), ("write_size, write_padding, write_schema", "src/storage.rs")],
     observe=["bytes which are written to the streams of a storage"])
prop("C11", "Reading a resource succeeds iff header and schema match, and yields its data",
     "Reading a resource succeeds iff its data and its schema exist, the size in the header equals the size of the resource without header and padding, and the stored schema equals the expected one; it then yields exactly the data between header and padding. Anything else is reported as an error: it never panics and never yields data.",
     ["inputs"], "all contents of a resource and of its schema, including damaged and truncated ones",
     "Tests read resources which were written properly, and a few wrong schemas.",
     ["src/storage.rs", "src/error.rs"], [("ResourceStorage::read_and_check_schema", "src/storage.rs")], observe=["result of ResourceStorage::read"])
prop("C12", "An I/O error is reported to the caller, never swallowed and never a panic",
     "If any operation of the underlying storage or stream fails while a resource, an external vector, a multivector or an archive is created, written, flushed or closed, then the call returns an error. It never reports success, and neither the call nor dropping the object after its failed close panics.",
     ["fault_sequences", "histories"], "every operation of the storage at which a failure may occur, in all of these calls",
     "Tests run with storages that never fail.",
     ["src/storage.rs", "src/vector.rs", "src/multivector.rs"], [("error propagation", "src/storage.rs"), ("ResourceHandle::close, abort", "src/storage.rs"), ("MultiVector::close", "src/multivector.rs")],
     observe=["results of calls with a storage that fails"])
prop("C13", "Opening an archive validates its signature and every resource",
     "Opening an archive succeeds iff its signature resource is present with the schema of the archive, and every required resource can be read with its own schema and, for a single struct, has the size of the struct. An optional resource which is absent or invalid reads as absent, and each getter of an open archive yields exactly the data of its own resource.",
     ["inputs", "configurations", "fault_sequences"], "all combinations of resources which are present, absent, or invalid, for all kinds of resources",
     "Tests open archives which are complete, apart from few cases.",
     ["src/archive.rs"], [("define_archive!", "src/archive.rs")], observe=["result of open", "getters of archives"])
prop("C14", "Creating an archive never overwrites an existing one",
     "Creating an archive in a storage which already has its signature fails and leaves the storage as it was. Otherwise it writes the signature with the schema of the archive, and only that.",
     ["histories", "configurations"], "all archives and all storages, with or without the archive",
     "Tests create each archive in an empty storage once.",
     ["src/storage.rs", "src/archive.rs"], [("create_archive", "src/storage.rs"), ("define_archive! builder", "src/archive.rs")], observe=["result of create_archive or Builder::new", "calls to the storage"])
prop("C15", "What a builder writes is what the archive reads, under the same name and schema",
     "For every kind of resource (struct, vector, multivector, raw data, subarchive), the builder of an archive stores it under the name and with the schema with which the archive reads it, so that data set with the builder is read back unchanged. Resources of different names, and resources of a subarchive, never affect each other.",
     ["programs", "inputs", "histories"], "all kinds of resources, all contents and all orders of setting them",
     "Tests build few archives and compare a few values.",
     ["src/archive.rs", "src/storage.rs"], [("define_archive!", "src/archive.rs"), ("create_external_vector, create_multi_vector", "src/storage.rs")], observe=["names, schemas and data at the storage", "getters of archives"])
prop("C16", "A memory storage returns exactly what was written, per path",
     "A resource of a memory storage reads as exactly the bytes which were written to it before it is read for the first time, wherever the stream was positioned for each write; it exists iff it was created, and creating it again before it is read starts with an empty one. Resources of different names or in different directories are independent, and a storage and its subdirectories share resources.",
     ["histories", "inputs"], "all sequences of writing, seeking and reading, all contents and names",
     "Tests write each resource once, front to back, apart from the header.",
     ["src/memstorage.rs"], [("MemoryResourceStorage", "src/memstorage.rs")], observe=["exists, read_resource, create_output_stream, subdir"])
prop("C17", "A file storage keeps each resource in a file of its own below its directory",
     "A file storage reads a resource as exactly the bytes of the file with its name in the directory of the storage, creates missing directories when a resource is written, and truncates files which are created again. Subdirectories map to directories, and errors of the file system are returned as errors.",
     ["histories", "inputs", "fault_sequences"], "all names, contents and states of the file system",
     "Tests write and read few archives in fresh directories.",
     ["src/filestorage.rs"], [("FileResourceStorage", "src/filestorage.rs"), ("MemoryMappedFileStorage", "src/filestorage.rs")], observe=["exists, read_resource, create_output_stream, subdir"])
prop("C18", "An open resource handle cannot be dropped silently, a closed one not written",
     "Dropping an external vector, a multivector or a resource handle which was neither closed nor failed panics, so that an incomplete resource is never taken for a complete one; dropping a closed one does not panic. Writing to or closing a handle which is closed already returns an error and writes nothing.",
     ["histories"], "all sequences of write, close and drop",
     "Tests close each handle exactly once.",
     ["src/storage.rs", "src/vector.rs", "src/multivector.rs"], [("Drop for ResourceHandle", "src/storage.rs"), ("ResourceHandle::is_open, write, close", "src/storage.rs")], observe=["results of write, close; panic on drop"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
