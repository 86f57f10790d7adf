From 8fbfbbdbef2b98a5be8725a6d9b90d887425df1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 15:46:54 +0000
Subject: [PATCH 01/52] hook: make private modules and the allocator choice
 reachable under cfg(verif_hooks)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..261970e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,10 +3,18 @@
 extern crate core;
 
 pub mod db;
+#[cfg(not(verif_hooks))]
 mod table;
+#[cfg(verif_hooks)]
+pub mod table;
 pub mod util;
+#[cfg(not(verif_hooks))]
 mod traits;
+#[cfg(verif_hooks)]
+pub mod traits;
 
+// with `--cfg verif_hooks` the embedding program picks the allocator, so that sanitizers see the heap
+#[cfg(not(verif_hooks))]
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
 
-- 
2.43.0


From fac7c9dfa8691f0c1146396a2182fe3dec9ff70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:12 +0000
Subject: [PATCH 02/52] fix: encode and decode fixed integers at unaligned
 offsets

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..4fe7ee0 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -179,7 +179,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -317,7 +317,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *const $type)})
         }
     }
 }
-- 
2.43.0


From 5b4042de1b67f1fb55ba9a45f0be0e63be8a18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:33 +0000
Subject: [PATCH 03/52] fix: decoded slices own a correctly laid out allocation

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 4fe7ee0..41d4431 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::ptr;
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到slice自己的内存上
+    Slice::from_buf(std::slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From e1e758186b89d5a13222dcd163ee3b6e56473384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:33 +0000
Subject: [PATCH 04/52] fix: a checked read or skip of a huge length reports an
 error instead of overflowing

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 41d4431..032f39e 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -118,7 +118,7 @@ macro_rules! get_ptr {
 macro_rules! check_length {
     ($offset: expr, $write_len: expr, $data_len: expr, write) => {
         // 偏移量 + 写入长度 >= 容器的长度时, 会抛出异常
-        if $offset + $write_len > $data_len {
+        if $write_len > $data_len.saturating_sub($offset) {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + write_len must < data_len"),
                 Slice::from(format!("offset = {}, write_len = {}, data_len = {}", $offset, $write_len, $data_len))));
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $read_len > $limit.saturating_sub($offset) {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From fab4f360a75695cba0ee45304bcf1952aa71807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:50 +0000
Subject: [PATCH 05/52] fix: checked decoding rejects truncated varints and
 get_buf advances like uncheck_get_buf

---
 src/util/coding.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 032f39e..c782701 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -952,6 +952,13 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            // 最后一个字节仍有后续标志, 说明数据被截断或者过长
+            let data = &self.data;
+            if unsafe { ptr::read(get_ptr!(data).add(res.1 - 1)) } & 128 != 0 {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("malformed varint"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1067,10 +1074,14 @@ impl<'a> Decoder<'a> {
     ///  let slice = decoder.get_length_prefixed_slice()?;
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
-        check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
-        check_length!(self.offset, size, self.limit, read);
-        unsafe { Ok(self.uncheck_get_buf(size)) }
+        let start = self.offset;
+        let size = self.get_varint32()? as usize;
+        let res = self.get_buf(size);
+        if res.is_err() {
+            // 长度不足时, 不移动偏移量
+            self.offset = start;
+        }
+        res
     }
 
     /// 获取buf 不检查长度
@@ -1118,11 +1129,9 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
-        unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
-        }
+        unsafe { Ok(self.uncheck_get_buf(len)) }
     }
 
     /// 跳过一段长度 偏移量会移动到跳过后的位置继续读取 未检查偏移量
-- 
2.43.0


From c59ea3b3849cc02a4634f1643d7314cb2028bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 06/52] fix: crc32c of unaligned data and of data with 4..15
 bytes after the last 16-byte swath

---
 src/util/crc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..c0963f6 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From 77fdd2e8d1b32598a7281406f843e094c55247b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 07/52] fix: unmasking a crc below the mask delta no longer
 overflows

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c0963f6..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From 4e84567c465da30548396fef97190e9a6be481ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 08/52] fix: log record checksum is a fixed 32 bit field

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..8c21058 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -75,7 +75,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From d824e913e7228fd920a267966f7d5640bf3804b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 09/52] fix: log writer recomputes the room left in the block
 for every fragment

---
 src/db/log_writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 8c21058..c4f8bcd 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,11 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 03a5180d9a948e3d12afadb5dfc9679dae54a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 10/52] fix: log writer does not lose the rest of a short write

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index c4f8bcd..2f0e51a 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -46,7 +46,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -78,10 +78,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From 0e3a186a5332508db3fb195e194c15c258afdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 11/52] fix: log reader reassembles fragments, stops at the end
 of the log and survives damaged records

---
 src/db/log_reader.rs | 108 ++++++++++++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 31 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..f47f5e8 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,8 +1,8 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE, K_ZERO_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -46,40 +46,69 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                // 剩余不足一个 header: 块尾的填充, 或者写到一半的 header
+                if self.eof {
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
-            let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
-            let record_type = self.buf[self.buf_read_idx + 6];
-            self.buf_read_idx += 7;
-            // CRC check
-            self.check_crc(data_len)?;
-            match record_type {
-                K_FULL_TYPE => {
-                    let end_idx = self.buf_read_idx + data_len;
-                    let data = &self.buf[self.buf_read_idx..end_idx];
-                    self.buf_read_idx += data_len;
-                    return Ok(Some(Slice::from_buf(data)));
+            let header_idx = self.buf_read_idx;
+            let data_len = (self.buf[header_idx + 4] as usize) + ((self.buf[header_idx + 5] as usize) << 8);
+            let record_type = self.buf[header_idx + 6];
+            if self.buf_len - header_idx - K_HEADER_SIZE < data_len {
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    // 写到一半的 record
+                    return Ok(None);
                 }
-                K_FIRST_TYPE => {
-                    tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
-                    tmp.as_mut().unwrap().write(partial_data)?;
+                return Err(Self::corruption("bad record length"));
+            }
+            self.buf_read_idx += K_HEADER_SIZE;
+            if record_type == K_ZERO_TYPE && data_len == 0 {
+                // 预分配的空间, 丢弃块中剩余的数据
+                self.buf_read_idx = self.buf_len;
+                if tmp.is_some() {
+                    return Err(Self::corruption("error in middle of record"));
                 }
-                K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                continue;
+            }
+            // CRC check
+            if let Err(e) = self.check_crc(data_len) {
+                // data_len 可能已经损坏, 丢弃块中剩余的数据
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
+            let end_idx = self.buf_read_idx + data_len;
+            match record_type {
+                K_FULL_TYPE | K_FIRST_TYPE => {
+                    if tmp.map_or(false, |data| !data.is_empty()) {
+                        // 保留这条完好的 record, 下次读取时返回
+                        self.buf_read_idx = header_idx;
+                        return Err(Self::corruption("partial record without end"));
+                    }
+                    let data = self.buf[self.buf_read_idx..end_idx].to_vec();
+                    self.buf_read_idx = end_idx;
+                    if record_type == K_FULL_TYPE {
+                        return Ok(Some(Slice::from_vec(data)));
+                    }
+                    tmp = Some(data);
                 }
-                K_LAST_TYPE => {
-                    let end_idx = self.buf_read_idx + data_len;
+                K_MIDDLE_TYPE | K_LAST_TYPE => {
                     let partial_data = &self.buf[self.buf_read_idx..end_idx];
-                    self.buf_read_idx += data_len;
-                    tmp.as_mut().unwrap().write(partial_data)?;
-                    let data = tmp.unwrap();
-                    return Ok(Some(Slice::from_vec(data)));
+                    self.buf_read_idx = end_idx;
+                    match tmp.as_mut() {
+                        Some(data) => data.extend_from_slice(partial_data),
+                        None => return Err(Self::corruption("missing start of fragmented record"))
+                    }
+                    if record_type == K_LAST_TYPE {
+                        return Ok(tmp.map(Slice::from_vec));
+                    }
                 }
                 _ => {
-                    return Err(Status::wrapper(LevelError::KCorruption,
-                                               format!("bad record_type: {}", record_type).into()));
+                    self.buf_read_idx = end_idx;
+                    return Err(Self::corruption(&format!("bad record_type: {}", record_type)));
                 }
             }
         }
@@ -87,13 +116,30 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        while self.buf_len < K_BLOCK_SIZE {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => {
+                    self.eof = true;
+                    break;
+                }
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => {
+                    self.buf_len = 0;
+                    self.eof = true;
+                    return Err(e.into());
+                }
+            }
         }
+        self.read_pos += self.buf_len;
         Ok(())
     }
 
+    fn corruption(msg: &str) -> Status {
+        Status::wrapper(LevelError::KCorruption, msg.into())
+    }
+
     #[inline]
     fn check_crc(&self, data_len: usize) -> Result<()> {
         if !self.checksum {
-- 
2.43.0


From 0c235a79bd6d56983ff0a95ce964dae9c9a34a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:43 +0000
Subject: [PATCH 12/52] fix: log reader starts at the first record at or after
 initial_offset

---
 src/db/log_reader.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index f47f5e8..61c4d10 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -12,7 +12,11 @@ use crate::util::status::{LevelError, Status};
 pub struct LogReader {
     file_reader: Box<dyn SeekableReader>,
     checksum: bool,
+    /// 已读入的块的结束位置
     read_pos: usize,
+    initial_offset: usize,
+    /// 从 initial_offset 开始, 尚未遇到第一条 record 的开头
+    resyncing: bool,
     eof: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
@@ -36,6 +40,8 @@ impl LogReader {
             file_reader,
             checksum,
             read_pos: block_start_location,
+            initial_offset,
+            resyncing: initial_offset > 0,
             eof: false,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
@@ -81,6 +87,18 @@ impl LogReader {
                 return Err(e);
             }
             let end_idx = self.buf_read_idx + data_len;
+            if self.read_pos - self.buf_len + header_idx < self.initial_offset {
+                // 起始位置早于 initial_offset
+                self.buf_read_idx = end_idx;
+                continue;
+            }
+            if self.resyncing {
+                self.resyncing = record_type == K_MIDDLE_TYPE;
+                if record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
+                    self.buf_read_idx = end_idx;
+                    continue;
+                }
+            }
             match record_type {
                 K_FULL_TYPE | K_FIRST_TYPE => {
                     if tmp.map_or(false, |data| !data.is_empty()) {
-- 
2.43.0


From 37f47a09f5749a7b8afde412c829e73cd3ed4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 13/52] fix: mutable range indexing of a slice honours the
 start of the range

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From ac2834569796f042e5ceac0669e4369900054f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 14/52] fix: starts_with a longer slice is false instead of a
 panic

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 5b0d6f096c75fd543c1c88ca73ddc68448d67561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 15/52] fix: data borrowed from a slice cannot outlive it

---
 src/util/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 433f247..7089acb 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -109,9 +109,9 @@ impl Slice {
     }
 }
 
-impl<'a> Slice {
+impl Slice {
     /// 借取 Slice 中的数据, 调用方只拥有读权限
-    pub fn borrow_data(&self) -> Cow<'a, String> {
+    pub fn borrow_data(&self) -> Cow<'_, String> {
         unsafe {
             // String & Vec<u8> has the same layout
             let s: &String = mem::transmute(&self.data);
-- 
2.43.0


From b018541b4a6e0b62d058092aae4b624cc736e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 16/52] fix: displaying a slice that is not utf-8

---
 src/util/slice.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 7089acb..89ce888 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -3,7 +3,6 @@ use std::mem;
 use std::borrow::Cow;
 use std::cmp::Ordering;
 use std::fmt::{Display, Formatter};
-use std::mem::ManuallyDrop;
 use std::ops::{Deref, DerefMut, RangeTo};
 
 #[derive(Debug)]
@@ -277,14 +276,6 @@ impl DerefMut for Slice {
 
 impl Display for Slice {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        unsafe {
-            let string = ManuallyDrop::new(
-                String::from_raw_parts(
-                    self.as_ptr() as *mut u8,
-                    self.data.len(),
-                    self.data.capacity())
-            );
-            f.write_str(string.as_str())
-        }
+        f.write_str(&String::from_utf8_lossy(self))
     }
 }
-- 
2.43.0


From 52bb9d97f77fab0a21cea5e4d83f13279a19efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 17/52] fix: a slice built in the arena refers to the copied
 bytes

---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..b280f0f 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From 9f31ef05b0c522f704d90da75f8f5ff75ca4e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 18/52] fix: to_slice copies the bytes

---
 src/util/unsafe_slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index b280f0f..3b066ee 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -63,10 +62,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From 04c56e5b03c822956d7c70ac37420822116d0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 19/52] fix: a sub slice may end at the end of the slice

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 3b066ee..0556e5e 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -52,7 +52,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start <= self.len && len <= self.len - start, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From 086a903c92b1cbc065a15b9a13b16771db9706f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 20/52] fix: a slice copied through the arena does not free
 arena memory

---
 src/util/arena.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..8a8b8da 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -121,7 +121,8 @@ impl ArenaAllocLike for Slice {
             let dst = lock_guard.allocate(self.len());
             let src = &**self;
             dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
+            // Slice 会释放自己的内存, 不能直接持有 arena 的内存
+            Slice::from_buf(dst)
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From f5db9174afe16f3ae1f34eb4ff704f2774915a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:35 +0000
Subject: [PATCH 21/52] fix: allocating nothing from a fresh arena

---
 src/util/arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index 8a8b8da..fcd74e6 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,6 +56,9 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
+        if bytes == 0 {
+            return &mut [];
+        }
         if bytes <= self.alloc_bytes_remaining {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
-- 
2.43.0


From e828f1c9b89c5c1fdbd0e8ead16c73bdc700e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 22/52] fix: aligned arena allocations are aligned

---
 src/util/arena.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index fcd74e6..f405230 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -59,14 +59,18 @@ impl Arena {
         if bytes == 0 {
             return &mut [];
         }
-        if bytes <= self.alloc_bytes_remaining {
-            self.alloc_bytes_remaining -= bytes;
-            let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
-            unsafe {
-                let new_ptr = self.alloc_ptr.unwrap().as_ptr().offset(bytes as isize);
-                self.alloc_ptr = Some(NonNull::new_unchecked(new_ptr));
-            };
-            return result;
+        if let Some(alloc_ptr) = self.alloc_ptr {
+            // 小于 align 的对象按照自身大小对齐即可, 避免浪费内存
+            let natural_align = align.min(bytes & bytes.wrapping_neg());
+            let padding = alloc_ptr.as_ptr().align_offset(natural_align);
+            if bytes.saturating_add(padding) <= self.alloc_bytes_remaining {
+                self.alloc_bytes_remaining -= padding + bytes;
+                unsafe {
+                    let start = alloc_ptr.as_ptr().add(padding);
+                    self.alloc_ptr = Some(NonNull::new_unchecked(start.add(bytes)));
+                    return slice::from_raw_parts_mut(start, bytes);
+                };
+            }
         }
         return self.allocate_fallback(bytes, align);
     }
-- 
2.43.0


From 0e82279061a3db7933491a5adf32f56e652ae7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 23/52] fix: skip list links are aligned

---
 src/db/skip_list.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..d37ef85 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -1,6 +1,5 @@
 use std::cmp::Ordering;
-use std::mem;
-use std::mem::size_of;
+use std::mem::{align_of, size_of};
 use std::ptr::null_mut;
 use std::sync::{Arc, RwLock};
 
@@ -391,11 +390,9 @@ fn allocate_next_elems(arena: ArenaRef) -> *mut RawNode {
     // allocate next_elems to 8 capacity array
     let elems_size = size_of::<RawNode>() * MAX_LEVEL;
     let mut lock = arena.lock().expect("lock arena");
-    let elems_ptr = lock.allocate(elems_size);
-    // transmute raw ptr to RawNode ptr
-    unsafe {
-        mem::transmute(elems_ptr.as_ptr())
-    }
+    let elems_ptr = lock.allocate_align(elems_size, align_of::<RawNode>());
+    // cast raw ptr to RawNode ptr
+    elems_ptr.as_mut_ptr() as *mut RawNode
 }
 
 #[inline]
-- 
2.43.0


From 8c66dd03788fdbf31a31d92ae65939944e99a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 24/52] fix: iterating over an empty skip list

---
 src/db/skip_list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index d37ef85..5d88814 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -51,11 +51,17 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        // empty list: head -> tail at each level
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail); }
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From 62f24238211fa13abd5bcb85774d7686d83e9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 25/52] fix: a skip list iterator is valid when it is at an
 element

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 5d88814..4e2194f 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -442,7 +442,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From 9bea005d5428eb11cbb1c56a743b5730985bd18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 26/52] fix: seek_to_last finds the last element of the skip
 list

---
 src/db/skip_list.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 4e2194f..f152177 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -358,24 +358,20 @@ impl Node {
 
     /// 找到最后一个数据元素
     unsafe fn seek_to_last(&self) -> Option<RawNode> {
-        if self.is_tail() {
-            return None;
-        }
-        let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+        let mut cur = self;
+        for l in (0..self.level).rev() {
+            loop {
+                let next = &*cur.get_node(l);
+                if next.is_tail() {
+                    break;
+                }
+                cur = next;
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        if cur.is_head_or_tail() {
+            return None;
+        }
+        Some(cur as *const Node as *mut Node)
     }
 }
 
@@ -456,7 +452,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From 247a7cd6acf9fdb3e8d5219130c625a341c22a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 27/52] fix: skip list nodes are freed with the arena they
 belong to

---
 src/db/skip_list.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index f152177..3a99f60 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,7 +52,7 @@ pub struct Iter<Cmp: Comparator> {
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
         let head = Node::create_head(arena.clone());
-        let tail = Node::create_tail();
+        let tail = Node::create_tail(arena.clone());
         // empty list: head -> tail at each level
         for l in 0..MAX_LEVEL {
             unsafe { (&mut *head).set_node(l, tail); }
@@ -291,32 +291,31 @@ impl<Cmp: Comparator> ToString for SkipList<Cmp> {
 impl Node {
     #[inline]
     fn create(src: UnsafeSlice, level: usize, arena: ArenaRef) -> RawNode {
-        let node = Box::new(Self {
+        let next_elems = allocate_next_elems(arena.clone());
+        allocate_node(Self {
             key: Some(src),
-            next_elems: allocate_next_elems(arena),
+            next_elems,
             level,
-        });
-        Box::into_raw(node)
+        }, arena)
     }
 
     #[inline]
     fn create_head(arena: ArenaRef) -> RawNode {
-        let node = Box::new(Self {
+        let next_elems = allocate_next_elems(arena.clone());
+        allocate_node(Self {
             key: None,
-            next_elems: allocate_next_elems(arena),
+            next_elems,
             level: MAX_LEVEL,
-        });
-        Box::into_raw(node)
+        }, arena)
     }
 
     #[inline]
-    fn create_tail() -> RawNode {
-        let node = Box::new(Self {
+    fn create_tail(arena: ArenaRef) -> RawNode {
+        allocate_node(Self {
             key: None,
             next_elems: null_mut(),
             level: 0,
-        });
-        Box::into_raw(node)
+        }, arena)
     }
 
     #[inline]
@@ -386,6 +385,14 @@ fn rand_level() -> usize {
     level
 }
 
+/// 节点和它的 key 一样, 由 arena 管理内存
+fn allocate_node(node: Node, arena: ArenaRef) -> RawNode {
+    let mut lock = arena.lock().expect("lock arena");
+    let node_ptr = lock.allocate_align(size_of::<Node>(), align_of::<Node>()).as_mut_ptr() as RawNode;
+    unsafe { node_ptr.write(node); }
+    node_ptr
+}
+
 fn allocate_next_elems(arena: ArenaRef) -> *mut RawNode {
     // RawNode is a raw ptr
     assert_eq!(size_of::<RawNode>(), size_of::<usize>());
-- 
2.43.0


From 5e7394d4aec0d33d7c6e702435fcf7f2fc210239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 28/52] fix: adding to a memtable does not deadlock on the
 arena

---
 src/db/mem_table.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..9282558 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -74,9 +74,9 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        // 不能持有 arena 的锁, 后面的拷贝和插入都需要获取这把锁
+        let mut buf = vec![0; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
-- 
2.43.0


From 174efecf499eaec99ccfb6c82c4d0f1f3aed7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 29/52] fix: memtable entries carry the length of the value

---
 src/db/mem_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 9282558..2be3e35 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,7 +70,7 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
@@ -85,6 +85,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From 4e4f080df38d532283fada6168e9c2af5bafd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 30/52] fix: a lookup key contains the data written to it

---
 src/db/db_format.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..3af1920 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -258,8 +258,7 @@ impl LookupKey {
         let user_key_size = user_key.size();
         let need = user_key_size + 13; // A conservative estimate
         let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
+        let mut encoder = Encoder::with_vec(&mut data);
         // write key size
         let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
-- 
2.43.0


From eb4e3d4c78290e24ea265c36774b2d12d7dbc3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 31/52] fix: a lookup key starts with the length of its
 internal key

---
 src/db/db_format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 3af1920..0d7ce5d 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -263,7 +263,7 @@ impl LookupKey {
         let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From 54278ffef54bc9761d4db6cf179b83ec71a0ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 32/52] fix: a separator is never below its start and a common
 prefix is returned unchanged

---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From 636ca235be141112ec142a0597aefbbefcd4c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 33/52] fix: removing the head of a hash chain detaches it from
 the next entry

---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..acf90cd 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,7 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    unsafe { handle_mut.next_hash.unwrap().as_mut() }.prev_hash = None;
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 43b887f111ae78fafa6780ec224fa8a5a1008b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 34/52] fix: a removed cache entry is freed only after it left
 both lists

---
 src/util/cache.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index acf90cd..d617b87 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -231,8 +231,6 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -428,8 +426,10 @@ impl<T> LRUCache<T> {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 同时回收内存
+                // 于从hash表中删除链表尾
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                // 回收内存
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -457,12 +457,14 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
+        // 先从hash表中删除
         let removed_handle = self.table.remove(key, hash)?;
         if let Some(removed) = removed_handle {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 回收内存
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 7b01be8eb7f109e17ddfc8db246fb845439dda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 35/52] fix: inserting an existing key replaces its entry

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index d617b87..4e065d4 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -413,6 +413,8 @@ impl<T> LRUCache<T> {
             value,
             hash,
             charge);
+        // key已存在时, 先删除旧的数据
+        self.erase(&key, hash)?;
         // hash表中插入数据
         self.table.insert(handle)?;
         // 插入lru
-- 
2.43.0


From 03f08bd9fe7094a828d492990cd3456d93ea7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 36/52] fix: the cache evicts until it is below its capacity
 again

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 4e065d4..44dc9b4 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -423,7 +423,7 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -432,6 +432,8 @@ impl<T> LRUCache<T> {
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
                 // 回收内存
                 HandleTable::drop_handle(tail.as_ptr());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 733c1afc3add4e983d438cb5af6f85b29f326be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 37/52] fix: pruning the cache frees whole hash chains

---
 src/util/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 44dc9b4..c2970c7 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -242,9 +242,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            let mut current = *head;
+            while let Some(handle) = current {
+                current = unsafe { handle.as_ref() }.next_hash;
+                // 回收内存
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From 074d4515eba7ae05f0b5a0526bb6975238f80d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 38/52] fix: dropping the cache frees its entries

---
 src/util/cache.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index c2970c7..c6b4e43 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -361,6 +361,13 @@ impl<T> HandleTable<T> {
     }
 }
 
+impl<T> Drop for HandleTable<T> {
+    fn drop(&mut self) {
+        // 回收缓存中剩余数据的内存
+        self.prune();
+    }
+}
+
 struct LRUCache<T> {
     // hash表, 用于存放缓存数据
     table: HandleTable<T>,
-- 
2.43.0


From 84484914ae80bb0b80af83fbf138b67d77bae4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 39/52] fix: the cache is shared between threads only if its
 values may be

---
 src/util/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index c6b4e43..c0ec035 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -635,10 +635,10 @@ fn pre_shard(capacity: usize) -> usize {
 }
 
 /// 所有权可以多线程传递
-unsafe impl<T> Send for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Send for ShardLRUCache<T> {}
 
 /// 不可变借用可以多线程共享, 内部shard具有可变性并且加锁, 可以安全的在多线程环境下使用
-unsafe impl<T> Sync for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Sync for ShardLRUCache<T> {}
 
 impl<T> ShardLRUCache<T> {
     /// 私有化构造器
-- 
2.43.0


From 979a38d7ead6f2352f51453d8b503025b82bf367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 40/52] fix: a cache with the largest possible capacity

---
 src/util/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index c0ec035..39343fd 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -631,7 +631,7 @@ fn shard(hash: u32) -> usize {
 
 #[inline]
 fn pre_shard(capacity: usize) -> usize {
-    (capacity + (K_NUM_SHARDS - 1)) / K_NUM_SHARDS
+    capacity / K_NUM_SHARDS + (capacity % K_NUM_SHARDS != 0) as usize
 }
 
 /// 所有权可以多线程传递
-- 
2.43.0


From 285e0b80849076d40c93951874d18b966b2fdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 41/52] fix: dropping a linked list frees its nodes

---
 src/util/linked_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..3a81801 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -250,6 +250,16 @@ impl<T> Default for LinkedList<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    fn drop(&mut self) {
+        // 从头到尾依次释放节点
+        while let Some(node) = self.head {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            self.head = node.next;
+        }
+    }
+}
+
 impl<T> LinkedListBuilder<T> for LinkedList<T> {
     #[inline]
     fn new() -> Self {
-- 
2.43.0


From f130c72d72ee6a8c5c2f26c001b969b73c1af428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 42/52] fix: starting a block past the first 2 KiB of the table
 terminates

---
 src/table/filter_block.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..b6eda9b 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -157,11 +157,10 @@ impl FilterBlock for FilterBlockBuilder {
         // 计算出需要创建的filter的总数目. filters_number ==> filter_index
         let filters_number = block_offset / (FILTER_BASE as u64);
 
-        let len = self.filter_offsets.len() as u64;
-        assert!(filters_number >= len);
+        assert!(filters_number >= self.filter_offsets.len() as u64);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From 454efc2eb6c164b448cea423df65e68e094332c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 43/52] fix: a filter block accepts keys that are not utf-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index b6eda9b..5004047 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -172,7 +172,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.extend_from_slice(key.as_ref());
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From 93755b9d78dde8201f2ce333360eb80e17d10a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 44/52] fix: finishing a filter block appends the offset array
 after the filters

---
 src/table/filter_block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 5004047..66cc03f 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -183,10 +183,9 @@ impl FilterBlock for FilterBlockBuilder {
         // Append array of per-filter offsets
         let array_offset = self.result.len() as u32;
 
-        // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        // Encoder 从 0 开始写入, result 中可能存在数据，因此先写入 footer 再追加到 result
+        let mut footer: Vec<u8> = Vec::new();
+        let mut encoder = Encoder::with_vec(&mut footer);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -194,6 +193,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.extend_from_slice(&footer);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From efbfe372eadebca23f551ad3e44ba69b9b703aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 45/52] fix: the standard deviation of equal samples is not NaN

---
 src/util/histogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index f5d76ca..27b3197 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -387,7 +387,8 @@ impl Histogram {
             return 0.0;
         }
         let variance = (self.sum_squares * self.num - self.sum * self.sum) / (self.num * self.num);
-        return variance.sqrt();
+        // 舍入误差可能会使方差略小于0
+        return variance.max(0.0).sqrt();
     }
 }
 
-- 
2.43.0


From cd297192d40090404fd0042d96e4acd647ec2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 46/52] fix: encoding a version edit appends to the target

---
 src/db/version_edit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..4122a92 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -202,7 +202,9 @@ impl VersionEdit {
     ///
     /// ```
     pub fn encode_to(&self, target: &mut Vec<u8>) -> Result<()> {
-        let mut encoder = Encoder::with_vec(target);
+        // Encoder 从 0 开始写入, 先编码再追加到 target
+        let mut encoded = vec![];
+        let mut encoder = Encoder::with_vec(&mut encoded);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
             encoder.put_varint32(self.comparator_.len() as u32)?;
@@ -253,6 +255,7 @@ impl VersionEdit {
             // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
             // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
         }
+        target.extend_from_slice(&encoded);
         Ok(())
     }
 
-- 
2.43.0


From b5342f0191ba7b723d321a1541f48ef03a849f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 47/52] fix: an encoded version edit contains the comparator
 name and the key bounds

---
 src/db/db_format.rs    |  5 +++++
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 0d7ce5d..0cba226 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,11 @@ impl InternalKey {
         self.rep_
     }
 
+    /// 编码后的数据
+    pub(crate) fn rep(&self) -> &Slice {
+        &self.rep_
+    }
+
     /// 取得  Slice的长度
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index 4122a92..8302b41 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -207,9 +207,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(&mut encoded);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(&self.comparator_))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -234,8 +232,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.rep())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -251,9 +248,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().rep())?;
+            encoder.put_length_prefixed_slice(f.get_largest().rep())?;
         }
         target.extend_from_slice(&encoded);
         Ok(())
-- 
2.43.0


From b43977147eb5897c3637339beae2c4b8617e17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 48/52] fix: a refused length-prefixed slice leaves the encoder
 unchanged

---
 src/util/coding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c782701..8883cfb 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -801,6 +801,8 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        let length = varint_length(slice.size() as u64) + slice.size();
+        if let MutVector(_) = self.data {} else { check_length!(self.offset, length, self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
         self.put_buf(slice)?;
         Ok(())
-- 
2.43.0


From e5915a9b5a166cfce09918ed6df631eff066806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 49/52] fix: link a skip list node only after all comparisons
 succeeded

---
 src/db/skip_list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 3a99f60..2340ef4 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -108,6 +108,8 @@ impl<Cmp: Comparator> SkipList<Cmp> {
         debug!("insert {}, level: {}", &key, node_height);
         let node_ptr = Node::create(key, node_height, self.arena.clone());
         let node = unsafe { &mut *node_ptr };
+        // predecessors of the node on each level, linked only after all comparisons succeeded
+        let mut prevs = [self.head; MAX_LEVEL];
         // loop from highest level to 0
         for l in (0..self.height).rev() {
             'inner_loop: loop {
@@ -116,7 +118,7 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                 if ele.is_tail() {
                     if l <= node_top_level {
                         // ele is tail node, add node to last
-                        (&mut *current).set_node(l, node_ptr);
+                        prevs[l] = current;
                         node.set_node(l, self.tail);
                         debug!("bind: {} before: {}, after: <tail>, at level: {}",
                                         node.key.unwrap(),
@@ -129,7 +131,7 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                         Some(Ordering::Less) => {
                             // node higher than current level at ele
                             if node_top_level >= l {
-                                (&mut *current).set_node(l, node_ptr);
+                                prevs[l] = current;
                                 node.set_node(l, ele_ptr);
                                 if (&*current).is_head() {
                                     debug!("bind: {} before: <head>, after: {}, at level: {}",
@@ -160,6 +162,9 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                 }
             }
         }
+        for l in 0..node_height.min(self.height) {
+            (&mut *prevs[l]).set_node(l, node_ptr);
+        }
         // if head level is less than new node, then fix head node height
         if self.height < node_height {
             for l in (self.height()..node_height).rev() {
-- 
2.43.0


From d9a47df9c551a61e7d4d221da9b86772b14f816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 50/52] fix: do not hand out memory the arena could not get

---
 src/util/arena.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index f405230..b3e9e82 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -1,5 +1,5 @@
 use std::slice;
-use std::alloc::{alloc, dealloc, Layout};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
 use std::ptr::NonNull;
 use std::sync::{Arc, Mutex};
 
@@ -82,14 +82,13 @@ impl Arena {
 
     fn allocate_fallback(&mut self, bytes: usize, align: usize) -> &mut [u8] {
         if bytes > ARENA_BLOCK_SIZE / 4 {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(bytes, align);
-                return self.allocate_new_block(layout);
-            }
+            // 大小溢出或者对齐不合法时 panic, 不能使用 unchecked
+            let layout = Layout::from_size_align(bytes, align).unwrap();
+            return self.allocate_new_block(layout);
         }
+        let layout = Layout::from_size_align(ARENA_BLOCK_SIZE, align).unwrap();
         unsafe {
             self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
-            let layout = Layout::from_size_align_unchecked(ARENA_BLOCK_SIZE, align);
             let new_block = self.allocate_new_block(layout);
             let ptr = new_block.as_ptr() as *mut u8;
             let result = slice::from_raw_parts_mut(ptr, bytes);
@@ -103,6 +102,10 @@ impl Arena {
     fn allocate_new_block(&mut self, layout: Layout) -> &mut [u8] {
         unsafe {
             let data = alloc(layout);
+            // 内存不足时 alloc 返回空指针
+            if data.is_null() {
+                handle_alloc_error(layout);
+            }
             self.memory_usage += layout.size();
             self.blocks.push((NonNull::new_unchecked(data), layout));
             slice::from_raw_parts_mut(data, layout.size())
-- 
2.43.0


From ff382ce5bf3cfc1f0d91277e5dafb451456def3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 51/52] fix: a panic of a value destructor in prune does not
 leave freed handles in the cache

---
 src/util/cache.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 39343fd..44353c8 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -1,4 +1,4 @@
-use std::{ptr, thread, usize};
+use std::{mem, ptr, thread, usize};
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::ops::Deref;
@@ -242,20 +242,18 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for head in self.list.iter() {
-            let mut current = *head;
+        // 析构value时可能panic, 先恢复到初始的默认容量, 再回收原来的list
+        let list = mem::replace(&mut self.list, vec![None; self.default_length]);
+        self.length = self.default_length;
+        self.elements = 0;
+        for head in list {
+            let mut current = head;
             while let Some(handle) = current {
                 current = unsafe { handle.as_ref() }.next_hash;
                 // 回收内存
                 Self::drop_handle(handle.as_ptr());
             }
         }
-        // 清空list恢复内存
-        self.list.clear();
-        self.elements = 0;
-        // 恢复到初始的默认容量
-        self.list.resize(self.default_length, None);
-        self.length = self.default_length;
     }
 
     /// 获取hash表的长度
@@ -488,13 +486,13 @@ impl<T> LRUCache<T> {
 
     /// 清空lru缓存, 同时回收内存
     pub fn prune(&mut self) -> Result<()> {
-        // hash表清空, 回收内存
-        self.table.prune();
         // lru头尾指针置空
         self.head_of_lru = None;
         self.tail_of_lru = None;
         // 使用量归零
         self.usage = 0;
+        // hash表清空, 回收内存
+        self.table.prune();
         Ok(())
     }
 
-- 
2.43.0


From 611ba3162754d4dbe0b4b4910ea0c71f5b76d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 52/52] fix: never hand out the bytes of an unsafe slice as
 text without checking them

as_str and Display made a str of any bytes. For bytes that are not UTF-8,
a str iterator reads past the end of the view. as_str now refuses them as
Slice::as_str does, Display and the text form of the skip list show them
with replacement characters.
---
 src/db/skip_list.rs      |  2 +-
 src/util/unsafe_slice.rs | 12 ++----------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 2340ef4..b0219d6 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -280,7 +280,7 @@ impl<Cmp: Comparator> ToString for SkipList<Cmp> {
                 tree.push_str("[head]");
                 while !node.is_head_or_tail() {
                     tree.push_str(" -> ");
-                    tree.push_str(node.key.unwrap().as_str());
+                    tree.push_str(&node.key.unwrap().to_string());
                     let level_str = format!("({})", node.level);
                     tree.push_str(level_str.as_str());
                     node = &*node.get_node(0);
diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 0556e5e..dd2aa76 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,5 +1,4 @@
 use std::fmt::{Display, Formatter};
-use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
 use crate::util::Result;
@@ -42,9 +41,7 @@ impl UnsafeSlice {
 
     #[inline]
     pub fn as_str(&self) -> &str {
-        unsafe {
-            core::str::from_utf8_unchecked(self.as_ref())
-        }
+        core::str::from_utf8(self.as_ref()).unwrap()
     }
 }
 
@@ -78,12 +75,7 @@ impl AsRef<[u8]> for UnsafeSlice {
 
 impl Display for UnsafeSlice {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        unsafe {
-            let string = ManuallyDrop::new(
-                String::from_raw_parts(self.ptr, self.len, self.len)
-            );
-            f.write_str(string.as_str())
-        }
+        f.write_str(&String::from_utf8_lossy(self.as_ref()))
     }
 }
 
-- 
2.43.0

