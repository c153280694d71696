From 71bcbf884c95ac5aae574a2d1302eadbbdfcf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 01/17] fix: read and write the ninth byte of a field relative
 to its byte offset

---
 src/bytereader.rs | 2 +-
 src/bytewriter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..7184fd7 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,7 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From f3e9a1aba4f8d808e7c2c21e9445890ab91be505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 02/17] fix: write_bytes stores only num_bits bits of an
 unsigned value

---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 7184fd7..0522431 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From 5c0a42e852a5d25233828c14c03d8512ddd7ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 03/17] fix: write_bytes without offset expands to a valid call

---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 0522431..593161e 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -76,7 +76,7 @@ macro_rules! write_bytes {
         write_bytes!($T; $value, $data, $offset, ::std::mem::size_of::<$T>() * 8)
     };
     ($T:tt; $value:expr, $data:expr) => {
-        write_bytes!($T, $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
+        write_bytes!($T; $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
     };
 }
 
-- 
2.43.0


From 45d9a66ec4c0798b1c8e9b699d653416e9d08bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 04/17] fix: Vector::at and at_mut panic if index is out of
 bounds

---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 3300250..6709a31 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len(), "index out of bounds");
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len(), "index out of bounds");
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From a698fa7ae3900c220358f4d87044c4ebda97ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 05/17] fix: ArrayView::at and slice do not wrap around for
 huge indexes

---
 src/arrayview.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..52ef962 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,8 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
+        assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
         T::create(&self.data[index..])
     }
 
@@ -102,11 +102,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_index(idx.checked_add(1).expect("index out of bounds")),
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_index(idx.checked_add(1).expect("index out of bounds")),
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -124,6 +124,7 @@ where
     }
 
     fn data_index(&self, index: usize) -> usize {
+        assert!(index <= self.len(), "index out of bounds");
         index * <T as Struct>::SIZE_IN_BYTES
     }
 }
-- 
2.43.0


From a364e1f67bae41e0078ee3df02d9d5dee294ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 06/17] fix: MultiArrayView::slice panics if range is out of
 bounds

---
 src/multiarrayview.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..eff5927 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -74,18 +74,19 @@ where
     ///
     /// Panics if the range is outside of bounds of array view.
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let index_start = match range.start_bound() {
+        let start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("index out of bounds"),
             Bound::Unbounded => 0,
         };
-        // include one more element (sentinel)
-        let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
-            Bound::Unbounded => self.index.len(),
+        let end = match range.end_bound() {
+            Bound::Included(&idx) => idx.checked_add(1).expect("index out of bounds"),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
         };
-        Self::new(self.index.slice(index_start..index_end), self.data)
+        assert!(start <= end && end <= self.len(), "range out of bounds");
+        // include one more element (sentinel)
+        Self::new(self.index.slice(start..=end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From d9c9d42b15e6bb347da5f3c5433603f655823efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 07/17] fix: reject a resource header with a size close to the
 maximum

---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 149951ff6f9eebb90af07a5e90eeb5a9b0235a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 08/17] fix: subdir of MemoryResourceStorage shares resources
 with its parent

---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..34a4790 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,7 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +45,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +55,11 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        // share the resources, s.t. they can be found when the directory is opened again
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From d9c2b7d6743003833e3093ed5cd34f63db191f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 09/17] fix: MemoryResourceStorage truncates a resource when
 created again

---
 src/memstorage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 34a4790..21a2e33 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -100,13 +100,12 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // creating an already existing resource again truncates it
+        let stream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 0a7e0eb3dc3e243a7ea6b4d1a6ae0bb94d625762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 10/17] fix: iterators with exact size report it in size_hint

---
 src/arrayview.rs      | 5 +++++
 src/multiarrayview.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 52ef962..1cd7df4 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -227,6 +227,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index eff5927..2d21185 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -241,6 +241,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From 0d07175733b6afff0217e2e1c421918513a52749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 11/17] fix: opening an archive checks the size of struct
 resources

---
 src/archive.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..05ddb87 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -495,6 +495,23 @@ macro_rules! define_archive {
                 storage.read(name, schema).map(|x|R::from($crate::MemoryDescriptor::new(&x)))
             }
 
+            #[allow(dead_code)]
+            fn read_struct_resource<R>(
+                storage: &$crate::ResourceStorage,
+                name: &str,
+                schema: &str,
+                size_in_bytes: usize,
+            ) -> Result<R, $crate::ResourceStorageError>
+            where
+                R: From<$crate::MemoryDescriptor>,
+            {
+                let data = storage.read(name, schema)?;
+                if data.len() != size_in_bytes {
+                    return Err($crate::ResourceStorageError::UnexpectedDataSize);
+                }
+                Ok(R::from($crate::MemoryDescriptor::new(&data)))
+            }
+
             $(pub fn $struct_resource(&self) -> opt!(
                 <$struct_type as $crate::Struct>::Item, $is_optional_struct)
             {
@@ -598,10 +615,11 @@ macro_rules! define_archive {
                     storage.read(&Self::signature_name(Self::NAME), Self::SCHEMA)?;
 
                     $($struct_resource = check_resource!(
-                        Self::read_resource(
+                        Self::read_struct_resource(
                             &*storage,
                             stringify!($struct_resource),
-                            $struct_schema
+                            $struct_schema,
+                            <$struct_type as $crate::Struct>::SIZE_IN_BYTES
                         ), $is_optional_struct);
                     )*
 
-- 
2.43.0


From 1311ac372737531f1db32781457e920e1471abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 12/17] fix: report IO errors on close instead of panicking in
 drop

---
 src/multivector.rs | 20 +++++++++++++++-----
 src/storage.rs     | 44 +++++++++++++++++++++++++++++---------------
 src/vector.rs      | 14 +++++++++++---
 3 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..5bfd5ce 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -197,11 +197,21 @@ where
     ///
     /// A multivector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
-        let name: String = self.data_handle.name().into();
-        let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // add sentinel for last item
+        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+            let name = self.data_handle.name().into();
+            // report the error instead of panicking, because the multivector is not closed
+            self.index.abort();
+            self.data_handle.abort();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
+        let index_view = match self.index.close() {
+            Ok(index_view) => index_view,
+            Err(e) => {
+                self.data_handle.abort();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..5081b68 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -143,15 +143,7 @@ pub fn create_external_vector<'a, T>(
 where
     T: for<'b> Struct<'b>,
 {
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create external vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
+    let handle = create_resource(storage, resource_name, schema)?;
     Ok(ExternalVector::new(handle))
 }
 
@@ -174,16 +166,31 @@ where
     let index_schema = format!("index({})", schema);
     let index = create_external_vector(storage, &index_name, &index_schema)?;
 
+    // create multi vector
+    match create_resource(storage, resource_name, schema) {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            // report the error instead of panicking, because index is not closed
+            index.abort();
+            Err(e)
+        }
+    }
+}
+
+/// Writes schema of a resource, and opens the resource for writing.
+fn create_resource<'a>(
+    storage: &'a ResourceStorage,
+    resource_name: &str,
+    schema: &str,
+) -> io::Result<ResourceHandle<'a>> {
     // write schema
     let schema_name = format!("{}.schema", resource_name);
     let stream = storage.create_output_stream(&schema_name)?;
     stream.borrow_mut().write_all(schema.as_bytes())?;
 
-    // create multi vector
+    // create resource
     let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
 }
 
 /// Creates a new archive in resource storage.
@@ -323,7 +330,8 @@ impl<'a> ResourceHandle<'a> {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            // in case of an error, the handle is closed as well
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -340,11 +348,17 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
 
+    /// Gives up writing to the underlying stream, e.g. after an IO error.
+    ///
+    /// The resource is left incomplete, i.e. its header is not updated.
+    pub fn abort(&mut self) {
+        self.stream = None;
+    }
+
     pub fn name(&self) -> &str {
         &self.name
     }
diff --git a/src/vector.rs b/src/vector.rs
index 6709a31..f078748 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -344,13 +344,21 @@ where
     ///
     /// An external vector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<ArrayView<'a, T>, ResourceStorageError> {
-        self.flush().map_err(|e| {
-            ResourceStorageError::from_io_error(e, self.resource_handle.name().into())
-        })?;
+        if let Err(e) = self.flush() {
+            let name = self.resource_handle.name().into();
+            // report the error instead of panicking, because the vector is not closed
+            self.abort();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
         self.resource_handle
             .close()
             .map(|data| ArrayView::new(data))
     }
+
+    /// Gives up writing to storage, e.g. after an IO error.
+    pub(crate) fn abort(mut self) {
+        self.resource_handle.abort();
+    }
 }
 
 impl<T> fmt::Debug for ExternalVector<'_, T>
-- 
2.43.0


From 1b387c573c13e3a0d6c2513ae9f3bc131a7554ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 13/17] contracts: guarded module with the items that contracts
 need

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 65eaa6d..fecf54f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,6 +44,8 @@
 //! [`MultiArrayView`]: struct.MultiArrayView.html
 
 #![deny(missing_docs, missing_debug_implementations, warnings)]
+// `--cfg flatdata_contracts` turns on what deductive verification needs (cf. module `contracts`).
+#![allow(unexpected_cfgs)]
 // #![allow(intra_doc_link_resolution_failure)]
 
 extern crate diff;
@@ -85,3 +87,12 @@ pub use crate::storage::{
 };
 pub use crate::structbuf::StructBuf;
 pub use crate::vector::*;
+
+/// Items which are not part of the API, but which contracts of the API are about.
+#[cfg(flatdata_contracts)]
+#[doc(hidden)]
+pub mod contracts {
+    pub use crate::arrayview::ArrayViewIter;
+    pub use crate::multiarrayview::{MultiArrayViewItemIter, MultiArrayViewIter};
+    pub use crate::storage::{ResourceHandle, Stream};
+}
-- 
2.43.0


From df85a15047504f8bb55f6102ef1ed520cf05a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 14/17] contracts: len, at and slice of ArrayView

---
 src/arrayview.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 1cd7df4..1de838c 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -73,6 +73,7 @@ where
     }
 
     /// Number of elements in the array.
+    #[cfg_attr(flatdata_contracts, kani::ensures(|r| *r == self.as_bytes().len() / <T as Struct>::SIZE_IN_BYTES))]
     pub fn len(&self) -> usize {
         self.data.len() / <T as Struct>::SIZE_IN_BYTES
     }
@@ -88,6 +89,8 @@ where
     /// # Panics
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
+    #[cfg_attr(flatdata_contracts, kani::requires(index < self.len()))]
+    #[cfg_attr(flatdata_contracts, kani::ensures(|r| contract::is_element::<T>(r, contract::bytes(self), index)))]
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
         assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
@@ -99,6 +102,10 @@ where
     /// # Panics
     ///
     /// Panics if the range is outside of bounds of array view.
+    #[cfg_attr(flatdata_contracts, kani::requires(contract::is_range(&range, self.len())))]
+    #[cfg_attr(flatdata_contracts, kani::ensures(|r| contract::is_slice(
+        r, self, old(contract::bounds(&range, self.len()))
+    )))]
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
@@ -271,6 +278,60 @@ where
     }
 }
 
+/// Predicates for contracts.
+#[cfg(flatdata_contracts)]
+#[allow(missing_docs)]
+pub mod contract {
+    use super::*;
+
+    /// Bytes of a view, for as long as the bytes live.
+    pub fn bytes<'a, T: for<'b> Struct<'b>>(view: &ArrayView<'a, T>) -> &'a [u8] {
+        let bytes = view.as_bytes();
+        unsafe { std::slice::from_raw_parts(bytes.as_ptr(), bytes.len()) }
+    }
+
+    /// `item` is the element at `index` of a view to `data`.
+    pub fn is_element<'a, T: for<'b> Struct<'b>>(
+        item: &<T as Struct<'a>>::Item,
+        data: &'a [u8],
+        index: usize,
+    ) -> bool {
+        *item == T::create(&data[index * <T as Struct>::SIZE_IN_BYTES..])
+    }
+
+    /// First index and index behind the last one.
+    pub fn bounds<R: RangeBounds<usize>>(range: &R, len: usize) -> (u128, u128) {
+        let start = match range.start_bound() {
+            Bound::Included(&index) => index as u128,
+            Bound::Excluded(&index) => index as u128 + 1,
+            Bound::Unbounded => 0,
+        };
+        let end = match range.end_bound() {
+            Bound::Included(&index) => index as u128 + 1,
+            Bound::Excluded(&index) => index as u128,
+            Bound::Unbounded => len as u128,
+        };
+        (start, end)
+    }
+
+    pub fn is_range<R: RangeBounds<usize>>(range: &R, len: usize) -> bool {
+        let (start, end) = bounds(range, len);
+        start <= end && end <= len as u128
+    }
+
+    /// `slice` consists of the elements of `view` in the range.
+    pub fn is_slice<T: for<'b> Struct<'b>>(
+        slice: &ArrayView<T>,
+        view: &ArrayView<T>,
+        (start, end): (u128, u128),
+    ) -> bool {
+        let offset = start as usize * <T as Struct>::SIZE_IN_BYTES;
+        slice.len() == (end - start) as usize
+            && (slice.is_empty()
+                || slice.as_bytes().as_ptr() == view.as_bytes()[offset..].as_ptr())
+    }
+}
+
 #[cfg(test)]
 #[allow(dead_code)]
 mod test {
-- 
2.43.0


From 8134766637f04e120daf139f906e32ab869fa85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 15/17] contracts: separate guards for contracts and for access
 to state

---
 src/arrayview.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 1de838c..dd4353d 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -73,7 +73,7 @@ where
     }
 
     /// Number of elements in the array.
-    #[cfg_attr(flatdata_contracts, kani::ensures(|r| *r == self.as_bytes().len() / <T as Struct>::SIZE_IN_BYTES))]
+    #[cfg_attr(flatdata_contracts_spec, kani::ensures(|r| *r == self.as_bytes().len() / <T as Struct>::SIZE_IN_BYTES))]
     pub fn len(&self) -> usize {
         self.data.len() / <T as Struct>::SIZE_IN_BYTES
     }
@@ -89,8 +89,8 @@ where
     /// # Panics
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
-    #[cfg_attr(flatdata_contracts, kani::requires(index < self.len()))]
-    #[cfg_attr(flatdata_contracts, kani::ensures(|r| contract::is_element::<T>(r, contract::bytes(self), index)))]
+    #[cfg_attr(flatdata_contracts_spec, kani::requires(index < self.len()))]
+    #[cfg_attr(flatdata_contracts_spec, kani::ensures(|r| contract::is_element::<T>(r, contract::bytes(self), index)))]
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
         assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
@@ -102,8 +102,8 @@ where
     /// # Panics
     ///
     /// Panics if the range is outside of bounds of array view.
-    #[cfg_attr(flatdata_contracts, kani::requires(contract::is_range(&range, self.len())))]
-    #[cfg_attr(flatdata_contracts, kani::ensures(|r| contract::is_slice(
+    #[cfg_attr(flatdata_contracts_spec, kani::requires(contract::is_range(&range, self.len())))]
+    #[cfg_attr(flatdata_contracts_spec, kani::ensures(|r| contract::is_slice(
         r, self, old(contract::bounds(&range, self.len()))
     )))]
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
@@ -278,8 +278,17 @@ where
     }
 }
 
+/// Access to the state for contracts.
+#[cfg(flatdata_contracts_state)]
+#[allow(missing_docs)]
+impl<'a, T: for<'b> Struct<'b>> ArrayViewIter<'a, T> {
+    pub fn rest(&self) -> ArrayView<'a, T> {
+        self.view.clone()
+    }
+}
+
 /// Predicates for contracts.
-#[cfg(flatdata_contracts)]
+#[cfg(flatdata_contracts_spec)]
 #[allow(missing_docs)]
 pub mod contract {
     use super::*;
-- 
2.43.0


From 81f1a8db08129c32a4e7a7e8bc970cc18e395075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 16/17] contracts: state of external vectors and multivectors

---
 src/multivector.rs | 23 +++++++++++++++++++++++
 src/vector.rs      | 14 ++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/src/multivector.rs b/src/multivector.rs
index 5bfd5ce..c8c7e26 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -217,6 +217,29 @@ where
     }
 }
 
+/// Access to the state for contracts.
+#[cfg(flatdata_contracts_state)]
+#[allow(missing_docs)]
+impl<'a, Idx, Ts> MultiVector<'a, Idx, Ts>
+where
+    Idx: for<'b> IndexStruct<'b>,
+    Ts: for<'b> VariadicStruct<'b>,
+{
+    pub fn from_state(
+        index: ExternalVector<'a, Idx>,
+        data: Vec<u8>,
+        size_flushed: usize,
+        data_handle: ResourceHandle<'a>,
+    ) -> Self {
+        Self { index, data, data_handle, size_flushed, _phantom: marker::PhantomData }
+    }
+
+    /// Index, data which is not yet flushed with padding, and size of the flushed data.
+    pub fn state(&self) -> (&ExternalVector<'a, Idx>, &[u8], usize) {
+        (&self.index, &self.data, self.size_flushed)
+    }
+}
+
 impl<'a, Idx, Ts: VariadicRef> fmt::Debug for MultiVector<'a, Idx, Ts>
 where
     Idx: for<'b> IndexStruct<'b>,
diff --git a/src/vector.rs b/src/vector.rs
index f078748..3c83290 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -361,6 +361,20 @@ where
     }
 }
 
+/// Access to the state for contracts.
+#[cfg(flatdata_contracts_state)]
+#[allow(missing_docs)]
+impl<'a, T: for<'b> Struct<'b>> ExternalVector<'a, T> {
+    pub fn from_state(data: Vec<u8>, len: usize, resource_handle: ResourceHandle<'a>) -> Self {
+        Self { data, len, resource_handle, _phantom: marker::PhantomData }
+    }
+
+    /// Data which is not yet flushed, and padding.
+    pub fn pending(&self) -> &[u8] {
+        &self.data
+    }
+}
+
 impl<T> fmt::Debug for ExternalVector<'_, T>
 where
     T: for<'b> Struct<'b>,
-- 
2.43.0


From 96ba56e5b4535f51bd580aa3580f1fd5f2fb035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 17/17] contracts: state of iterators of multivectors

---
 src/multiarrayview.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 2d21185..6b5644e 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -283,6 +283,19 @@ where
     }
 }
 
+/// Access to the state for contracts.
+#[cfg(flatdata_contracts_state)]
+#[allow(missing_docs)]
+impl<'a, Idx, Ts: 'a> MultiArrayViewIter<'a, Idx, Ts>
+where
+    Idx: for<'b> IndexStruct<'b>,
+    Ts: for<'b> VariadicStruct<'b>,
+{
+    pub fn rest(&self) -> MultiArrayView<'a, Idx, Ts> {
+        self.view.clone()
+    }
+}
+
 #[cfg(test)]
 #[allow(dead_code)]
 mod tests {
-- 
2.43.0

