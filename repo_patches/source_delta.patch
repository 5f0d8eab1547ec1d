From ec8bd6d8ea76ac01282df4e2d0d3eb3b353bad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 01/19] fix: peek_u64_varint returned a wrong value for
 multi-byte varints

---
 src/varint.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..af66d4e 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -164,7 +164,19 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros() as usize;
+
+        // Peeking always starts from the current position, so the first byte has to be peeked again.
+        let mut buffer = [0; 9];
+        reader.peek_bytes( &mut buffer[ ..length + 1 ] )?;
+
+        let mut value = [0; 8];
+        value[ ..length ].copy_from_slice( &buffer[ 1..length + 1 ] );
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length as u32 * 8 );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From e369e457ec91715b60e3ff76e51adecabd21c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 02/19] fix: don't treat a transparent or packed struct with a
 custom field encoding as a primitive

---
 speedy-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..d6a2f54 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2118,7 +2118,7 @@ struct IsPrimitiveResult {
 
 fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &ToplevelStructAttributes ) -> IsPrimitiveResult {
     let is_ty_packed = is_packed( &input.attrs );
-    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs );
+    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs ) && structure.fields[ 0 ].can_be_primitive();
     let is_ty_c = is_c( &input.attrs );
     let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
     let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
@@ -2137,7 +2137,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From 0f47ff09ba521a6cbaea8f87c3200755f6a49859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 03/19] fix: flip the endianness of a transparent struct nested
 in a primitive struct

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index d6a2f54..dd10541 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty )
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From aa35f141b95f39ceba2b92ac5495571cc23a8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 04/19] fix: read every element of a vector of zero-sized
 values

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..4921cfe 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -546,12 +546,12 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             let mut p = vec.as_mut_ptr();
-            let e = unsafe { p.add( length ) };
 
             // We deliberately have a separate counter instead
-            // of subtracting pointers as this optimizes better.
+            // of comparing pointers as otherwise we'd never read
+            // any of the elements if they're zero-sized in memory.
             let mut count = 0;
-            while p < e {
+            while count < length {
                 let value = match self.read_value() {
                     Ok( value ) => value,
                     Err( error ) => {
-- 
2.43.0


From db65e08b072473e4d65f863be264c04c6d00024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 05/19] fix: don't divide by zero when reading collections of
 zero-sized primitive structs

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4921cfe..3aa3675 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -598,7 +598,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >,
               [T]: ToOwned< Owned = Vec< T > >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
                 let bytes = bytes?;
                 assert_eq!( bytes.len(), length * mem::size_of::< T >() );
@@ -642,7 +642,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where U: FromIterator< T >,
               T: Readable< 'a, C >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
             })?;
@@ -668,7 +668,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         #[repr(packed)]
         struct Pair< K, V >( K, V );
 
-        if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
+        if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture()
             })?;
-- 
2.43.0


From 9efa63fcb6efd352018d0607c023e3f4df56d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 06/19] fix: reject overflowing lengths when reading a Cow
 slice

---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3aa3675..a14017b 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -599,9 +599,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From 1c53a2b109fe46f0c6054358c704e9327b762bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 07/19] fix: report write errors from flushing the file in
 write_to_file

---
 src/writable.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..192d731 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,12 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From 257c20466f8747f5fcf14fb54d08e05fb3e65cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 08/19] fix: retry interrupted reads in streams when buffering
 and peeking

---
 src/readable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..cda352e 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -288,6 +288,16 @@ impl< 'ctx, 'r, 'a, C: Context > Reader< 'r, C > for CopyingBufferReader< 'ctx,
     }
 }
 
+#[cfg(feature = "std")]
+fn read_ignoring_interrupts( reader: &mut impl Read, chunk: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( chunk ) {
+            Err( ref error ) if error.kind() == std::io::ErrorKind::Interrupted => {},
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 struct StreamReader< C: Context, S: Read > {
     context: C,
@@ -304,7 +314,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_ignoring_interrupts( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +373,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_ignoring_interrupts( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From a04b45d954013774bd138fd4197d23ba079bcc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 09/19] fix: don't rely on the field order of packed structs
 when reading primitives in bulk

---
 speedy-derive/src/lib.rs | 2 +-
 src/reader.rs            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index dd10541..ef33e25 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2121,7 +2121,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
     let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs ) && structure.fields[ 0 ].can_be_primitive();
     let is_ty_c = is_c( &input.attrs );
     let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
-    let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
+    let check_order = !is_ty_transparent && !is_ty_c;
 
     let mut is_forced = false;
     match attrs.is_primitive {
diff --git a/src/reader.rs b/src/reader.rs
index a14017b..0de43b8 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -666,7 +666,7 @@ pub trait Reader< 'a, C: Context >: Sized {
               K: Readable< 'a, C >,
               V: Readable< 'a, C >
     {
-        #[repr(packed)]
+        #[repr(C, packed)]
         struct Pair< K, V >( K, V );
 
         if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
-- 
2.43.0


From 5db5c235455ebd235ba4f552ae9a70052d30e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 10/19] fix: return an error instead of panicking when reading
 an out of range Duration

---
 src/error.rs         | 1 -
 src/readable_impl.rs | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..531ceba 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,7 +199,6 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
-#[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..3b6a3a5 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,9 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+        let extra_secs = (nanos / 1_000_000_000) as u64;
+        let secs = secs.checked_add( extra_secs ).ok_or_else( crate::error::error_invalid_system_time )?;
+        Ok( core::time::Duration::new( secs, nanos % 1_000_000_000 ) )
     }
 
     #[inline]
-- 
2.43.0


From 0a50b83320379db0c405abe2fdf2ef96cda93be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 11/19] fix: return an error instead of panicking when reading
 an out of range DateTime

---
 src/ext_chrono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..8cfde2a 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_system_time )
     }
 
     #[inline]
-- 
2.43.0


From 28f9dfcecef234862986c579f57069c3ca69e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 12/19] fix: return an error instead of creating misaligned
 references

---
 speedy-derive/src/lib.rs     |  7 ++++---
 src/error.rs                 |  7 +++++++
 src/private.rs               |  3 ++-
 src/readable_unsized_impl.rs | 16 +++-------------
 src/utils.rs                 | 19 +++++++++++++++++++
 5 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ef33e25..39437b1 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,14 +1580,15 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| unsafe { speedy::private::cast_bytes::< #inner_ty >( slice, _length_ ) }.ok_or_else( speedy::private::error_unaligned ) )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
+                    .and_then( |slice| unsafe {
+                        speedy::private::cast_bytes::< #inner_ty >( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
+                            .ok_or_else( speedy::private::error_unaligned )
                     })
             }}
         }
diff --git a/src/error.rs b/src/error.rs
index 531ceba..a6a06d7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    Unaligned,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::Unaligned => write!( fmt, "input buffer is not aligned well enough to be borrowed from" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -219,3 +221,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_unaligned< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::Unaligned ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..d3b047f 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -24,10 +24,11 @@ pub use crate::error::{
     error_invalid_str_utf8,
     error_unsized,
     error_endianness_mismatch,
+    error_unaligned,
 
     get_error_kind,
 };
-pub use crate::utils::ZeroCopyable;
+pub use crate::utils::{ZeroCopyable, cast_bytes};
 
 pub use memoffset::offset_of;
 
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..0cddad8 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,7 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe { crate::utils::cast_bytes( bytes, length ) }.ok_or_else( crate::error::error_unaligned )
     }
 
     #[inline]
@@ -54,13 +51,6 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
     }
 }
 
-#[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
-}
-
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
@@ -69,8 +59,8 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice: &[T] = unsafe { crate::utils::cast_bytes( bytes, N ) }.ok_or_else( crate::error::error_unaligned )?;
+        Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
     }
 
     #[inline]
diff --git a/src/utils.rs b/src/utils.rs
index 79ecc48..d552be1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,25 @@ unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for u128 {}
 unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for f32 {}
 unsafe impl< T > ZeroCopyable< crate::context::NativeContext, T > for f64 {}
 
+/// Reinterprets a slice of bytes as a slice of a given type. Any excess bytes at the end are ignored.
+///
+/// Returns `None` if the bytes are not properly aligned.
+///
+/// # Safety
+///
+/// Every bit pattern must be valid for `T`.
+#[inline(always)]
+pub unsafe fn cast_bytes< T >( bytes: &[u8], length: usize ) -> Option< &[T] > {
+    if length == 0 {
+        Some( &[] )
+    } else if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        None
+    } else {
+        debug_assert!( length.checked_mul( core::mem::size_of::< T >() ).map( |size| size <= bytes.len() ).unwrap_or( false ) );
+        Some( unsafe { core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) } )
+    }
+}
+
 pub trait SwapBytes {
     fn swap_bytes( self ) -> Self;
 }
-- 
2.43.0


From e2a2f9127ba1cb1f1bac5765b75040cb748a74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 13/19] fix: don't trust the length prefix when preallocating a
 vector of unknown availability

---
 src/reader.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0de43b8..0e9a5b1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -53,6 +53,46 @@ impl< T > ExactSizeIterator for RawCopyIter< T > {
 }
 impl< T > core::iter::FusedIterator for RawCopyIter< T > {}
 
+#[cfg(feature = "alloc")]
+#[inline(never)]
+fn read_vec_incrementally< 'a, C, R, T >( reader: &mut R, length: usize ) -> Result< Vec< T >, C::Error >
+    where C: Context,
+          R: Reader< 'a, C >,
+          T: Readable< 'a, C >
+{
+    const CHUNK_SIZE: usize = 64 * 1024;
+
+    let element_size = mem::size_of::< T >();
+    let mut vec: Vec< T > = Vec::new();
+    while vec.len() < length {
+        let remaining = length - vec.len();
+        let count = if element_size == 0 {
+            remaining
+        } else {
+            core::cmp::min( remaining, core::cmp::max( vec.len(), CHUNK_SIZE / element_size + 1 ) )
+        };
+
+        vec.reserve( count );
+        if T::speedy_is_primitive() {
+            unsafe {
+                let position = vec.len();
+                reader.read_bytes_into_ptr( vec.as_mut_ptr().add( position ) as *mut u8, count * element_size )?;
+                vec.set_len( position + count );
+            }
+        } else {
+            for _ in 0..count {
+                vec.push( reader.read_value()? );
+            }
+        }
+    }
+
+    if T::speedy_is_primitive() {
+        T::speedy_convert_slice_endianness( reader.endianness(), &mut vec );
+    }
+
+    Ok( vec )
+}
+
 pub trait Reader< 'a, C: Context >: Sized {
     fn read_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error >;
     fn peek_bytes( &mut self, output: &mut [u8] ) -> Result< (), C::Error >;
@@ -522,10 +562,17 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >
     {
         let (required, overflow) = T::minimum_bytes_needed().overflowing_mul( length );
-        if overflow || self.can_read_at_least( required ) == Some( false ) {
+        let is_available = self.can_read_at_least( required );
+        if overflow || is_available == Some( false ) {
             return Err( error_end_of_input() );
         }
 
+        if is_available != Some( true ) || required < length {
+            // We don't know whether the input really contains that many elements,
+            // so we can't preallocate the memory for all of them.
+            return read_vec_incrementally( self, length );
+        }
+
         let mut vec = Vec::with_capacity( length );
         if T::speedy_is_primitive() {
             unsafe {
-- 
2.43.0


From 7c2e4df8a4bbf7d5defad4b01476cf954d7af4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 14/19] fix: default_on_eof on an Option must default the whole
 field when its length is missing

---
 speedy-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 39437b1..f47fa32 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1423,7 +1423,9 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            // For an `Option` the whole field has to be replaced by its default value, not only the length.
+            let is_option = if let Opt::Option( _ ) = field.ty { true } else { false };
+            if field.default_on_eof && !is_option {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From eb3aedfe6f7c9845b19cfea02d0f488d8b29a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:43 +0000
Subject: [PATCH 15/19] fix: answer can_write_at_least without overflowing on
 huge sizes

---
 src/writable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writable.rs b/src/writable.rs
index 192d731..f78f261 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -52,7 +52,7 @@ impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > {
 
     #[inline(always)]
     fn can_write_at_least( &self, size: usize ) -> Option< bool > {
-        Some( self.buffer.get( self.position..self.position + size ).is_some() )
+        Some( self.buffer.len() - self.position >= size )
     }
 }
 
-- 
2.43.0


From 9cfeb655ac1d2f632c24ce533bc97d55b3a1ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 16/19] fix: constant_prefix = -128i8 made the derive panic

---
 speedy-derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index f47fa32..b68d240 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -916,7 +916,11 @@ impl syn::parse::Parse for FieldAttribute {
                             match literal {
                                 syn::Lit::Int( literal ) => {
                                     if literal.suffix() == "i8" {
-                                        vec![ (literal.base10_parse::< i8 >().unwrap() * -1) as u8 ]
+                                        let value = literal.base10_parse::< i16 >()? * -1;
+                                        if value < core::i8::MIN as i16 {
+                                            return Err( syn::Error::new( value_span, "number too small to fit in target type" ) );
+                                        }
+                                        vec![ value as u8 ]
                                     } else if literal.suffix() == "u8" {
                                         return generic_error()
                                     } else {
-- 
2.43.0


From 7a6025c2534cf61d323196a479f006a6df7f0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 17/19] fix: indexmap support needs no standard library

---
 src/ext_indexmap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ext_indexmap.rs b/src/ext_indexmap.rs
index f02a102..d35ff0d 100644
--- a/src/ext_indexmap.rs
+++ b/src/ext_indexmap.rs
@@ -9,7 +9,7 @@ use {
             write_length
         }
     },
-    std::{
+    core::{
         hash::{
             BuildHasher,
             Hash
@@ -67,7 +67,7 @@ impl< C, K, V, S > Writable< C > for IndexMap< K, V, S >
     fn bytes_needed( &self ) -> Result< usize, C::Error > {
         unsafe_is_length!( self.len() );
 
-        let mut count = std::mem::size_of::< u32 >();
+        let mut count = core::mem::size_of::< u32 >();
         for (key, value) in self {
             count += key.bytes_needed()? + value.bytes_needed()?;
         }
@@ -90,7 +90,7 @@ impl< C, T, S > Writable< C > for IndexSet< T, S >
     fn bytes_needed( &self ) -> Result< usize, C::Error > {
         unsafe_is_length!( self.len() );
 
-        let mut count = std::mem::size_of::< u32 >();
+        let mut count = core::mem::size_of::< u32 >();
         for value in self {
             count += value.bytes_needed()?;
         }
-- 
2.43.0


From 050054f5aa7a5e5f2df96059b2a0f525cfc572a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 18/19] fix: reading a borrowed slice of a derived field must
 require a type for which every bit pattern is valid

#[derive(Readable)] on a field `&'a [T]` accepted any T and reinterpreted
the input bytes as T: a bool of 2, a String made out of the input. Require
the same ZeroCopyable bound the reading of `&'a [T]` itself has.
---
 speedy-derive/src/lib.rs | 23 ++++++++++++++++-------
 src/private.rs           |  1 +
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index b68d240..47e766b 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -283,7 +283,7 @@ fn parse_primitive_ty( ty: &syn::Type ) -> Option< PrimitiveTy > {
     }
 }
 
-fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
+fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], borrowed_types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
     let impl_params = {
         let lifetime_params = ast.generics.lifetimes().map( |alpha| quote! { #alpha } );
         let type_params = ast.generics.type_params().map( |ty| { let ty_without_default = TypeParam { default: None, ..ty.clone() }; quote! { #ty_without_default } });
@@ -335,6 +335,11 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Tr
             }
         }
 
+        // These are going to be reinterpreted straight from the bytes, so every bit pattern has to be valid.
+        for ty in borrowed_types {
+            predicates.push( quote! { #ty: speedy::private::ZeroCopyable< speedy::private::NativeContext, #ty > } );
+        }
+
         let items = constraints.chain( predicates.into_iter() ).collect_vec();
         if items.is_empty() {
             quote! {}
@@ -1684,7 +1689,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
     }
 }
 
-fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
+fn readable_body< 'a >( types: &mut Vec< syn::Type >, borrowed_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
     let mut field_names = Vec::new();
     let mut field_readers = Vec::new();
     let mut minimum_bytes_needed = Vec::new();
@@ -1695,6 +1700,9 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (To
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
         types.extend( field.bound_types() );
+        if let (Ty::RefSlice( _, inner_ty ), false) = (field.ty.inner(), field.skip) {
+            borrowed_types.push( inner_ty.clone() );
+        }
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
@@ -2152,6 +2160,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
 fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error > {
     let name = &input.ident;
     let mut types = Vec::new();
+    let mut borrowed_types = Vec::new();
 
     let (reader_body, minimum_bytes_needed_body, impl_primitive, impl_zerocopyable) = match &input.data {
         syn::Data::Struct( syn::DataStruct { ref fields, .. } ) => {
@@ -2159,7 +2168,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let attrs = collect_toplevel_struct_attributes( attrs )?;
             let structure = Struct::new( fields, &attrs )?;
             let is_primitive = check_is_primitive( &input, &structure, &attrs );
-            let (body, initializer, minimum_bytes) = readable_body( &mut types, &structure );
+            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut borrowed_types, &structure );
             let reader_body = quote! {
                 #body
                 Ok( #name #initializer )
@@ -2251,7 +2260,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             };
 
             let impl_zerocopyable = if is_primitive.impl_zerocopyable {
-                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
+                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, &[], Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
                 quote! {
                     unsafe impl< #impl_params C_, T_ > speedy::private::ZeroCopyable< C_, T_ > for #name #ty_params #where_clause {}
                 }
@@ -2269,7 +2278,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
-                let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
+                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut borrowed_types, &variant.structure );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2332,7 +2341,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Readable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &borrowed_types, Trait::Readable );
     let output = quote! {
         impl< 'a_, #impl_params C_: speedy::Context > speedy::Readable< 'a_, C_ > for #name #ty_params #where_clause {
             #[inline]
@@ -2474,7 +2483,7 @@ fn impl_writable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Writable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &[], Trait::Writable );
     let output = quote! {
         impl< #impl_params C_: speedy::Context > speedy::Writable< C_ > for #name #ty_params #where_clause {
             #[inline]
diff --git a/src/private.rs b/src/private.rs
index d3b047f..b158954 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -28,6 +28,7 @@ pub use crate::error::{
 
     get_error_kind,
 };
+pub use crate::context::NativeContext;
 pub use crate::utils::{ZeroCopyable, cast_bytes};
 
 pub use memoffset::offset_of;
-- 
2.43.0


From 540105e6fb2e2c3d37fd723c7376e267828d23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 19/19] fix: a borrowed slice of a zero-sized type read until
 the end of the input divided by zero

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 47e766b..b8480bf 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1598,7 +1598,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
                     .and_then( |slice| unsafe {
-                        speedy::private::cast_bytes::< #inner_ty >( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
+                        speedy::private::cast_bytes::< #inner_ty >( slice, slice.len().checked_div( core::mem::size_of::< #inner_ty >() ).unwrap_or( 0 ) )
                             .ok_or_else( speedy::private::error_unaligned )
                     })
             }}
-- 
2.43.0

