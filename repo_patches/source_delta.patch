From 282c106d9b95f38dc53833e447b71e5b68e2c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 01/25] fix: read and write data space cells without assuming
 alignment

A misaligned address is legal in @ ! f@ f! and , (allot need not keep
HERE aligned), but dereferencing a misaligned pointer is undefined
behaviour and aborts the host process in builds with debug assertions.
---
 src/memory.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..b863155 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -4,6 +4,7 @@ use exception::{Exception, INVALID_MEMORY_ADDRESS};
 use std::alloc::{alloc_zeroed, dealloc, Layout};
 use std::marker;
 use std::mem;
+use std::ptr;
 use std::slice;
 
 pub struct SystemVariables {
@@ -129,15 +130,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        ptr::read_unaligned(addr as *const usize)
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        ptr::read_unaligned(addr as *const isize)
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        ptr::read_unaligned(addr as *const f64)
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -178,7 +179,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        ptr::write_unaligned(pos as *mut usize, v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -200,7 +201,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        ptr::write_unaligned(pos as *mut isize, v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -215,7 +216,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        ptr::write_unaligned(pos as *mut f64, v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 0c4dac5f9dbc781dc6eb0de2103ff67605052eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 02/25] fix: reject address ranges that wrap around the address
 space

@ ! move and the file access words compared addr+len with the limit of
data space. For an address near the top of the address space the sum
wraps, so -1 @ read (and -1 ! or read-file wrote) outside of data space,
or panicked in builds with overflow checks.
---
 src/core.rs        | 10 ++++++----
 src/file_access.rs | 12 +++++-------
 src/memory.rs      |  8 ++++++++
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..8c32c65 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2780,7 +2780,8 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t
+            && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2795,7 +2796,8 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t
+            && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2846,9 +2848,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
diff --git a/src/memory.rs b/src/memory.rs
index b863155..5f4dba3 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -119,6 +119,14 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contain the `len` consecutive address units at `pos`?
+    ///
+    /// True if self.start() <= pos and pos + len <= self.limit(), without
+    /// wrapping around the address space.
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        self.start() <= pos && pos <= self.limit() && len <= self.limit() - pos
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From 01770e0b31c39447eaba9ecd4a486c50a5c7b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 03/25] fix: check the string argument of type and open-source

Neither checked that the string lies in data space, so 0 10 type read
arbitrary memory of the host or crashed it. Neither checked that it is
UTF-8 before making a str of it, which is undefined behaviour.
---
 src/loader.rs | 15 +++++++++++----
 src/output.rs | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..bea536e 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,14 +40,19 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        if !self.data_space().has_range(caddr as usize, u as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
                     let reader = BufReader::new(file);
-                    let path = String::from(unsafe {
-                        self.data_space().str_from_raw_parts(caddr as _, u as _)
-                    });
+                    let path = String::from_utf8_lossy(unsafe {
+                        self.data_space().buffer_from_raw_parts(caddr as _, u as _)
+                    })
+                    .into_owned();
                     match position {
                         Some(sid) => {
                             self.sources_mut()[sid] = Some(Source { reader, path });
diff --git a/src/output.rs b/src/output.rs
index feece3d..154edc1 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,15 +54,21 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len == 0 {
+            return;
+        }
+        if !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-                    let s = unsafe {
-                        &self
-                            .data_space()
-                            .str_from_raw_parts(addr as usize, len as usize)
+                    let bytes = unsafe {
+                        self.data_space()
+                            .buffer_from_raw_parts(addr as usize, len as usize)
                     };
-                    buffer.push_str(s);
+                    buffer.push_str(&String::from_utf8_lossy(bytes));
                 }
                 self.set_output_buffer(buffer);
             }
-- 
2.43.0


From f6b16f9d2b73318655343002b7a9f9db4b6e83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 04/25] fix: reject an address !token cannot store to instead
 of panicking

!token only checked the lower bound of the address: near or past the
limit of data space it panicked, and near the top of the address space
the check in put_cstr wrapped and the token was written out of bounds.
---
 src/core.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 8c32c65..5af3996 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2011,7 +2011,14 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = match self.last_token().as_ref() {
+            Some(t) => t.len().min(255),
+            None => 0,
+        };
+        if self
+            .data_space()
+            .has_range(c_addr, len + mem::size_of::<usize>())
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
@@ -2019,11 +2026,7 @@ pub trait Core: Sized {
                     self.set_last_token(t);
                 }
                 None => unsafe {
-                    if c_addr < self.data_space().limit() {
-                        self.data_space().put_u8(0, c_addr);
-                    } else {
-                        panic!("Error: store_token while space is full.");
-                    }
+                    self.data_space().put_u8(0, c_addr);
                 },
             }
         } else {
-- 
2.43.0


From 9d8996ba0004b5415ac32af8b572c08537f2a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 05/25] fix: wrap address arithmetic like the other integer
 words

cell+ char+ cells float+ floats aligned faligned panicked on overflow in
builds with overflow checks (for example max-n cell+, or -1 f@), where
+ * 1+ and the like wrap.
---
 src/core.rs   | 9 ++++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5af3996..a122493 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2463,7 +2463,8 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2471,7 +2472,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2479,7 +2481,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 5f4dba3..0033372 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -277,7 +277,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -289,7 +289,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -301,7 +301,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
-- 
2.43.0


From bb897beed447340a0a3df4dd716baf779276e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 06/25] fix: do not overflow on i or j outside a loop or on
 task number min-n

i and j computed their return stack position, and activate, suspend and
resume their task index, with a subtraction which panicked in builds with
overflow checks.
---
 src/core.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index a122493..cee44e9 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,9 +1079,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -1651,7 +1651,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
@@ -3233,7 +3233,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3243,7 +3243,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 679c4338cebd0a0fdd037bfef421f18a40e1374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 07/25] fix: do not recurse endlessly when the error handler
 does not exist

abort_with executed the handler even if its xt is out of range, which made
execute_word call abort_with again, until the host's stack overflowed.
'9999 handler!', or forgetting the handler with a marker, was enough.
---
 src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index cee44e9..eea2f17 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3205,7 +3205,10 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        // The handler may not exist, for example because a marker removed it.
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From 211c0e15211513b71c646579da2e7a655845680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 08/25] fix: reject an invalid execution token in _postpone and
 (xtime)

Both indexed the wordlist with a number taken from the data stack and
panicked if there is no such word. (xtime) also panicked in builds with
overflow checks when its start time lies in the future.
---
 src/core.rs  |  8 ++++++--
 src/tools.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index eea2f17..7e07562 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1891,8 +1891,12 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
-        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-        compilation_semantics(self, xt);
+        if xt < self.wordlist().len() {
+            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+            compilation_semantics(self, xt);
+        } else {
+            self.abort_with(UNSUPPORTED_OPERATION);
+        }
     }
 
     fn compile_token(&mut self) {
diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..4e13f0b 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,8 +152,13 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
-        let word = &mut self.wordlist_mut()[xt as usize];
+        let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
+        let xt = xt as usize;
+        if xt >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
+        let word = &mut self.wordlist_mut()[xt];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
         } else {
-- 
2.43.0


From d36d135ca0360cea480e634dcffa3380a8f3d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 09/25] fix: check the loop parameters leave reads from

leave jumped through an address popped from the return stack. With an
unbalanced return stack (do 1 2 3 >r >r >r leave loop) it read arbitrary
memory and crashed the host.
---
 src/core.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7e07562..e31e8b8 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -7,8 +7,8 @@ use exception::{
     self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
-    RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
-    UNEXPECTED_END_OF_FILE, UNSUPPORTED_OPERATION,
+    RETURN_STACK_IMBALANCE, RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW,
+    STACK_UNDERFLOW, UNDEFINED_WORD, UNEXPECTED_END_OF_FILE, UNSUPPORTED_OPERATION,
 };
 use hibitset::{BitSet, BitSetLike};
 use loader::Source;
@@ -1062,6 +1062,13 @@ pub trait Core: Sized {
             self.abort_with(RETURN_STACK_UNDERFLOW);
             return;
         }
+        if !self
+            .data_space()
+            .has_range(third as usize, mem::size_of::<isize>())
+        {
+            self.abort_with(RETURN_STACK_IMBALANCE);
+            return;
+        }
         self.state().instruction_pointer =
             unsafe { self.data_space().get_isize(third as usize) as usize };
     }
-- 
2.43.0


From ef129227381861e6b73f6d9e2f82de40424eabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 10/25] fix: do not pad endlessly when the field width of .r or
 f.r is min-n

width - length wrapped to a huge number of spaces, or panicked in builds
with overflow checks.
---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 154edc1..e23ea61 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -162,7 +162,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -205,7 +205,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From ba366237afd060d830785c09a6e938cf7dc2f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 11/25] fix: do not panic when parsing at or past the end of
 the input

s" and ." at the end of a line, parse after an unterminated s", any
parsing word after source-idx! with an arbitrary index, and parsing words
in a task without an input buffer all panicked and so crashed the host.
There is nothing left to parse in these cases. _skip advanced by one byte
per delimiter, and so into the middle of a delimiter longer than that.
---
 src/core.rs   | 25 ++++++++++++++-----------
 src/output.rs | 21 +++++++++++++--------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index e31e8b8..9fc5266 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1705,8 +1705,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1774,12 +1773,12 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        let source_index = self.state().source_index;
+        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(source_index..)) {
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1805,24 +1804,26 @@ pub trait Core: Sized {
             self.state().source_index = self.state().source_index + cnt;
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        let source_index = self.state().source_index;
+        if let Some(source) = input_buffer.as_ref().and_then(|b| b.get(source_index..)) {
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
                     Some((idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt = idx + ch.len_utf8();
                         } else {
                             break;
                         }
@@ -1834,7 +1835,9 @@ pub trait Core: Sized {
             }
             self.state().source_index = self.state().source_index + cnt;
         }
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     fn imm_paren(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index e23ea61..d274e83 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -86,13 +86,16 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
+        let input_buffer = self.input_buffer().take();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
+            // ignore the space following S"
+            let start = self.state().source_index.saturating_add(1);
+            let source = match input_buffer {
+                Some(ref b) => b.get(start..).unwrap_or(""),
+                None => "",
+            };
             let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
+                Some(n) => &source[..n],
                 None => source,
             };
             let cnt = s.len();
@@ -101,10 +104,12 @@ pub trait Output: Core {
             compilation_semantics(self, idx);
             self.data_space().compile_str(s);
             self.data_space().align();
-            // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            // ignore the closing quote
+            self.state().source_index = start.saturating_add(cnt + 1);
+        }
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From bb7d0b5f271f0c32816260470cfd81b56fe0fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 12/25] fix: postpone of an immediate word

The compilation semantics of an immediate word is to execute it, but
postpone compiled code which appends the word to the current definition.
': endif postpone then ; immediate' did not work, and included, which uses
'postpone [' to load a file in interpretation state, appended a cell to
data space for every file and stayed in the state it was in.
---
 src/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 9fc5266..b5ac98c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1875,9 +1875,15 @@ pub trait Core: Sized {
             match self.find(&last_token) {
                 Some(xt) => {
                     self.set_last_token(last_token);
-                    self.compile_integer(xt as isize);
-                    let idx = self.references().idx__postpone;
-                    self.compile_word(idx);
+                    if self.wordlist()[xt].is_immediate() {
+                        // Compilation semantics of an immediate word is to execute it.
+                        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+                        compilation_semantics(self, xt);
+                    } else {
+                        self.compile_integer(xt as isize);
+                        let idx = self.references().idx__postpone;
+                        self.compile_word(idx);
+                    }
                 }
                 None => {
                     self.set_last_token(last_token);
-- 
2.43.0


From d21f5ee9e8dcc218d5c7fde47e36cc160e7575c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 13/25] fix: stack effect of delete-file with a name that is
 too long

delete-file ( c-addr u -- ior ) left two cells on the stack.
---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..9c7b5bc 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-- 
2.43.0


From 92956bb5c5c604fd10f09ce93a249de631ce6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 14/25] fix: report an allot which does not fit into data space

allot ignored a request larger than what is left of data space, so the
program went on with memory it did not own and the next definition
overlapped it. It is a dictionary overflow.
---
 src/core.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index b5ac98c..915dc75 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -4,7 +4,7 @@
 
 extern crate libc;
 use exception::{
-    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
+    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
     RETURN_STACK_IMBALANCE, RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW,
@@ -3008,7 +3008,14 @@ pub trait Core: Sized {
     /// zero, leave the data-space pointer unchanged.
     fn allot(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().allot(v);
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+            return;
+        }
+        let here = self.data_space().here().wrapping_add(v as usize);
+        if self.data_space().set_here(here).is_err() {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        }
     }
 
     /// Run-time: ( addr -- a-addr )
-- 
2.43.0


From 310d041529229b24d7b5ae099b67043979d0c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 15/25] fix: forget unresolved label references when a
 definition is abandoned

After an error in a definition which used goto or call before the label,
every later ; failed with a control structure mismatch until 0labels was
executed, although the later definitions were fine.
---
 src/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 915dc75..dce35dd 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3159,6 +3159,8 @@ pub trait Core: Sized {
         self.s_stack().reset();
         self.f_stack().reset();
         self.c_stack().reset();
+        // References to labels of the abandoned definition, if any, will not be resolved.
+        self.forward_bitset_mut().clear();
     }
 
     /// ( -- source-id )
-- 
2.43.0


From 59aac36119380b134784d60f69d2938c27008d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 16/25] fix: value of float literals with a large exponent

The exponent was truncated to 32 bits (1e4294967296 was 1.0), and the power
of ten was computed on its own: 0e400 was NaN instead of 0, 1.5e-310 was 0
and 0.001e310 was infinite although both are in the range of f64.
---
 src/core.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index dce35dd..acb1ab8 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2255,9 +2255,18 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
+                // The significand is between 1e-18 and 1e19, so that a larger exponent
+                // makes no difference.
+                let exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(-600)
+                    .min(600) as i32;
+                // Scale in two steps if the power of ten may be out of range of f64.
+                let step = if exponent.abs() > 300 { exponent / 2 } else { 0 };
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * (10.0f64).powi(step)
+                    * (10.0f64).powi(exponent - step);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 4b943887bb66dc0df871d81f9f509603f2945224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 17/25] fix: forget the sources saved by an include which
 failed

An error in an included file leaves the input source stack as it is, so
after 16 errors every include aborted because the stack was full.
---
 core.fth | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core.fth b/core.fth
index 7bf20b7..3e2f7d6 100644
--- a/core.fth
+++ b/core.fth
@@ -105,6 +105,8 @@ defer restore-input   ' _restore-input  ' restore-input  defer!
 \ NOTE: multitasking is not considered here.
 create src-stack 16 , 0 , 16 2* cells allot
 : save-source
+    \ Nothing is saved while interpreting the user input, except what is left by errors.
+    source-id 0= if  0 src-stack cell+ !  then
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
-- 
2.43.0


From 1737c7f15a0232761d69f95e02c34fae1467a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 18/25] fix: reject number literals without digits

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..e0955de 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -57,6 +57,10 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
     let mut len = 0;
     let mut bytes = input;
     let mut value = 0isize;
+    if bytes.is_empty() {
+        // At least one digit is needed.
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     for c in bytes.iter() {
         let d;
         if b'0' <= *c && *c <= b'9' {
-- 
2.43.0


From e1e4b0e1f5f1ba3f850768b43024d27579284e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 19/25] fix: restore the line number of the including file
 after include

---
 core.fth | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core.fth b/core.fth
index 3e2f7d6..09a0fb8 100644
--- a/core.fth
+++ b/core.fth
@@ -101,22 +101,23 @@ defer save-input   ' _save-input  ' save-input  defer!
 defer restore-input   ' _restore-input  ' restore-input  defer!
 
 \ Stack to save & restore source
-\ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
+\ content: | capacity | count=N | line1 | source-idx1 | source-id1 | ... | lineN | source_idxN | source-idN |
 \ NOTE: multitasking is not considered here.
-create src-stack 16 , 0 , 16 2* cells allot
+variable load-line#
+create src-stack 16 , 0 , 16 3 * cells allot
 : save-source
     \ Nothing is saved while interpreting the user input, except what is left by errors.
     source-id 0= if  0 src-stack cell+ !  then
-    source-id source-idx
+    source-id source-idx load-line# @
     src-stack 2@ over > if
-      ( src-id src-idx count ) 1+ dup src-stack cell+ !
-      ( src-id src-idx count+1 ) 2* cells src-stack +  2!
+      ( src-id src-idx line count ) 1+ dup src-stack cell+ !
+      ( src-id src-idx line count+1 ) 3 * 1- cells src-stack +  swap over !  cell+ 2!
     else abort then ;
 : restore-source
     src-stack 2@ drop  dup 0 > if
       ( count ) dup 1- src-stack cell+ !
-      ( count ) 2* cells src-stack + 2@
-      source-idx!  source-id!
+      ( count ) 3 * 1- cells src-stack +  dup @ load-line# !
+      cell+ 2@ source-idx!  source-id!
     else abort then ;
 : evaluate-input
     begin parse-word
@@ -126,7 +127,6 @@ create src-stack 16 , 0 , 16 2* cells allot
       ?stacks else interpret-token ?stacks then
     repeat ;
 \ Multitasking is not considered here.
-variable load-line#
 : load-source-file ( -- )
     begin
       source-id load-line
-- 
2.43.0


From 96fe26c90966f019d14aa66b6c0912d0383c4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 20/25] fix: close the sources left open by a failed include on
 reset

---
 src/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index acb1ab8..1f4571c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3228,6 +3228,10 @@ pub trait Core: Sized {
     fn reset(&mut self) {
         self.r_stack().reset();
         self.set_source_id(0);
+        // Sources left open by an error while loading are of no use any more.
+        for source in self.sources_mut() {
+            *source = None;
+        }
         if let Some(ref mut buf) = *self.input_buffer() {
             buf.clear()
         }
-- 
2.43.0


From 1f3bdc5b9acdbe8785a5463392bec5fdbe44d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/25] fix: do not panic in .backtrace after an invalid
 execution token

---
 src/tools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 4e13f0b..0520f2c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -95,7 +95,9 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt >= self.wordlist().len() {
+                write!(buf, "unknown({:0X}) ", xt).unwrap();
+            } else if xt != 0 {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From 5947b248465b3655a1fc5a805588b77c3b6e4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 22/25] fix: do not execute outside data space when a return
 address is close to the end of memory

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 1f4571c..68a44df 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -801,7 +801,7 @@ pub trait Core: Sized {
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
         while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
@@ -816,7 +816,7 @@ pub trait Core: Sized {
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
         if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
+            && ip <= self.data_space().limit() - mem::size_of::<isize>()
         {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
-- 
2.43.0


From fa291c86811f55b325211918d774d531550a8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 23/25] fix: F~ with a zero tolerance took zeros of different
 sign as identical

---
 src/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/float.rs b/src/float.rs
index 9132710..0093d18 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -275,7 +275,9 @@ pub trait Float: Core {
             self.s_stack()
                 .push(if (x1 - x2).abs() < x3 { TRUE } else { FALSE });
         } else if x3 == 0.0 {
-            self.s_stack().push(if x1 == x2 { TRUE } else { FALSE });
+            // Exactly identical encodings.
+            self.s_stack()
+                .push(if x1.to_bits() == x2.to_bits() { TRUE } else { FALSE });
         } else {
             self.s_stack()
                 .push(if (x1 - x2).abs() < (x3.abs() * (x1.abs() + x2.abs())) {
-- 
2.43.0


From 5b46764af206547fa6626dfd4feccdf0c7556b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 24/25] fix: forget the maximum execution time of a word
 measured below 1 us with 0xtime

---
 src/core.rs  |  2 +-
 src/tools.rs | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 68a44df..24aaba5 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -58,7 +58,7 @@ impl<Target> Word<Target> {
             doer: 0,
             action: action,
             compilation_semantics: compilation_semantics,
-            min_execution_time: 0,
+            min_execution_time: usize::MAX,
             max_execution_time: 0,
         }
     }
diff --git a/src/tools.rs b/src/tools.rs
index 0520f2c..a8263ad 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -161,11 +161,7 @@ pub trait Tools: Output {
             return;
         }
         let word = &mut self.wordlist_mut()[xt];
-        if word.min_execution_time != 0 {
-            word.min_execution_time = word.min_execution_time.min(t);
-        } else {
-            word.min_execution_time = t;
-        }
+        word.min_execution_time = word.min_execution_time.min(t);
         word.max_execution_time = word.max_execution_time.max(t);
     }
 
@@ -174,7 +170,7 @@ pub trait Tools: Output {
         if let Some(mut buf) = self.output_buffer().take() {
             let mut counter = 0;
             for w in (1..self.wordlist().len()).rev() {
-                if self.wordlist()[w].min_execution_time > 0 {
+                if self.wordlist()[w].min_execution_time <= self.wordlist()[w].max_execution_time {
                     counter += 1;
                     if 1 != counter {
                         write!(buf, "|").unwrap();
@@ -193,10 +189,8 @@ pub trait Tools: Output {
     /// Clear measured execution times. `0xtime( -- )`
     fn clear_xtime(&mut self) {
         for w in (1..self.wordlist().len()).rev() {
-            if self.wordlist()[w].min_execution_time > 0 {
-                self.wordlist_mut()[w].min_execution_time = 0;
-                self.wordlist_mut()[w].max_execution_time = 0;
-            }
+            self.wordlist_mut()[w].min_execution_time = usize::MAX;
+            self.wordlist_mut()[w].max_execution_time = 0;
         }
     }
 
-- 
2.43.0


From 85f2150817075e7cb9648d5c116851972dea1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 25/25] fix: do not read the history forever when it cannot be
 read

---
 rtf/src/term.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 38cf4a2..0aedab5 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -33,6 +33,11 @@ impl Term {
                 let lines = io::BufReader::new(file).lines();
                 opt_history = Some(
                     lines
+                        // A line which is not UTF-8 is skipped; other errors repeat forever.
+                        .take_while(|x| match *x {
+                            Ok(_) => true,
+                            Err(ref e) => e.kind() == io::ErrorKind::InvalidData,
+                        })
                         .map(|x| if let Ok(s) = x { s } else { String::new() })
                         .collect(),
                 );
-- 
2.43.0

