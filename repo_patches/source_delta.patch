From d153de82f5aa26231b0904bb6e602c5626d8ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 01/49] fix: return a structure holding only a long double on
 the x87 stack

The x86-64 psABI returns struct { long double } in st(0), like a plain
long double.  ffi_prep_cif_machdep selected an rax:rdx return for it, so
both ffi_call and closures exchanged garbage with compiled code.
---
 src/x86/ffi64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..f53b682 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -473,7 +473,9 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
 
-	  if (rtype_size == 4 && sse0)
+	  if (classes[0] == X86_64_X87_CLASS)
+	    flags = UNIX64_RET_X87;
+	  else if (rtype_size == 4 && sse0)
 	    flags = UNIX64_RET_XMM32;
 	  else if (rtype_size == 8)
 	    flags = sse0 ? UNIX64_RET_XMM64 : UNIX64_RET_INT64;
-- 
2.43.0


From 31a02b5acd7510877baa406eda5de363939024ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 02/49] fix: never modify the caller's argument vector in
 ffi_call

The copies of large structures were stored into the caller's avalue
array, which kept pointing into the dead stack frame after the call: a
second call through the same array passed garbage.  The Unix64 path
copies memory arguments to the outgoing stack anyway, so no other copy is
needed there.  In the Win64 path every argument that is passed by
reference (also complex and long double values and structures of 3, 5, 6
or 7 bytes) needs a copy, or the callee would write to the caller's
objects.
---
 src/x86/ffi64.c  | 18 ------------------
 src/x86/ffiw64.c | 25 +++++++++++++------------
 2 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index f53b682..b159086 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -687,24 +687,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..d8a9af4 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,26 +121,25 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize;
+  size_t rsize, csize;
+  char *copy;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
   int nargs = cif->nargs;
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* Every argument which does not fit an 8 byte slot is passed by reference
+     to a copy, which the callee owns.  Allocate the space for the copies
+     first: the outgoing stack must be the lowest part of this frame.  */
+  csize = 0;
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
+      size_t size = arg_types[i]->size;
+      if (size != 1 && size != 2 && size != 4 && size != 8)
+	csize += FFI_ALIGN (size, 16);
     }
+  copy = alloca (csize);
 
   flags = cif->flags;
   rsize = 0;
@@ -188,7 +187,9 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 	  stack[j] = *(UINT8 *)avalue[i];
 	  break;
 	default:
-	  stack[j] = (uintptr_t)avalue[i];
+	  memcpy (copy, avalue[i], arg_types[i]->size);
+	  stack[j] = (uintptr_t)copy;
+	  copy += FFI_ALIGN (arg_types[i]->size, 16);
 	  break;
 	}
     }
-- 
2.43.0


From f5c38314773de4df7879d90661475c555e09757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 03/49] fix: pop long double results when ffi_call has no
 result object

With rvalue == NULL a long double or complex long double result was left
on the x87 register stack, which overflows after a few calls and turns
unrelated long double computations into NaNs.
---
 src/x86/ffi64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index b159086..ee4cc6b 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -582,6 +582,10 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
     {
       if (flags & UNIX64_FLAG_RET_IN_MEM)
 	rvalue = alloca (cif->rtype->size);
+      /* Values on the x87 register stack have to be popped.  */
+      else if ((flags & 0xff) == UNIX64_RET_X87
+	       || (flags & 0xff) == UNIX64_RET_X87_2)
+	rvalue = alloca (2 * sizeof (long double));
       else
 	flags = UNIX64_RET_VOID;
     }
-- 
2.43.0


From db9a582ac7f6836f55d11b70e27811820e85c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 04/49] fix: refuse an incorrect structure description every
 time it is used

initialize_aggregate left the size of the members seen so far in a
structure with an incorrect member.  The first ffi_prep_cif refused the
description, but later ones, seeing a nonzero size, accepted it.
---
 src/prep_cif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..a567aef 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,13 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Leave no partial layout behind: a nonzero size would make the
+	     next use of this description look like a valid one.  */
+	  arg->size = 0;
+	  arg->alignment = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From 329ffb6121e71d1c6771e22918c1912fb5117c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 05/49] fix: pass the closure itself to the raw closure
 translators

ffi_prep_raw_closure_loc and ffi_prep_java_raw_closure_loc handed the
code address to the translation functions as the closure.  With static
trampolines (or any other mapping in which the code address is not the
address of the closure object) every invocation crashed.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From fff0153ebaa524680581822879f15e1a4b54bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 06/49] fix: count one raw slot for a complex argument in
 ffi_raw_size

ffi_ptrarray_to_raw and ffi_raw_to_ptrarray pass complex arguments by
reference in one slot, like structures; ffi_raw_size counted the size of
the value itself.
---
 src/raw_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_api.c b/src/raw_api.c
index 43cf975..6b99589 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -46,6 +46,9 @@ ffi_raw_size (ffi_cif *cif)
 	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
       else
 #endif
+      if ((*at)->type == FFI_TYPE_COMPLEX)
+	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
+      else
 	result += FFI_ALIGN ((*at)->size, FFI_SIZEOF_ARG);
     }
 
-- 
2.43.0


From d41264a053a505ab390e7fdf547092fd0e10e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 07/49] fix: look up closure segments under the heap's lock

ffi_closure_alloc, ffi_prep_closure_loc (through ffi_tramp_is_present)
and ffi_data_to_code_pointer walked the segment list while other threads
may extend, unlink and unmap segments.
---
 src/closures.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..68ac144 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -984,6 +984,25 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* Find out whether PTR lies in memory of the closure heap.  If so, return
+   nonzero and set *CODE, unless it is NULL, to the executable address that
+   corresponds to PTR.  The segment list may be changed by other threads at
+   any time, so it must not be looked at without holding the heap's lock.  */
+static int
+ffi_closure_heap_lookup (void *ptr, void **code)
+{
+  msegmentptr seg;
+
+  if (PREACTION (gm))
+    return 0;
+  seg = segment_holding (gm, ptr);
+  if (seg && code)
+    *code = add_segment_exec_offset (ptr, seg);
+  POSTACTION (gm);
+
+  return seg != NULL;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
@@ -999,9 +1018,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      void *exec = ptr;
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      ffi_closure_heap_lookup (ptr, &exec);
+      *code = FFI_FN (exec);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1021,19 +1041,16 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *code = data;
+
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
-     burden of managing this memory themselves, in which case this
+     which case they are found in its heap.  However, some users take on
+     the burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
-    {
-      if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
-      return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
-    }
-  else
-    return data;
+  if (ffi_closure_heap_lookup (data, &code) && ffi_tramp_is_supported ())
+    return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
+
+  return code;
 }
 
 /* Release a chunk of memory allocated with ffi_closure_alloc.  If
@@ -1058,8 +1075,7 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  return ffi_closure_heap_lookup (ptr, NULL) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 9c943d66c4bcb06c81bbc7b037599ab73bf92965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 08/49] fix: publish the closure heap's parameters only when
 they are complete

init_mparams set page_size, which tells other threads that initialisation
is done, before granularity.  A thread making its first allocation in
between computed a zero-sized mapping and ffi_closure_alloc failed.
---
 src/dlmalloc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..23f4c8f 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2556,13 +2556,17 @@ static int init_mparams(void) {
       /* Set up lock for main malloc area */
       INITIAL_LOCK(&gm->mutex);
       gm->mflags = mparams.default_mflags;
+#if !defined(WIN32) && !defined(__OS2__)
+      mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
+                             DEFAULT_GRANULARITY : malloc_getpagesize);
+#endif
     }
     RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
+    /* A nonzero page size tells other threads that mparams is complete, so
+       it has to be the last member that is set.  */
     mparams.page_size = malloc_getpagesize;
-    mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
-                           DEFAULT_GRANULARITY : mparams.page_size);
 #elif defined (__OS2__)
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
-- 
2.43.0


From 15407a52551b0c4e4088cd05c7c009ab798aaf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 09/49] fix: verify the trampoline file before mapping it

ffi_tramp_get_libffi opens the path listed in /proc/self/maps, which may
by now be another file, e.g. when the library was upgraded while the
process was running or when the path contains a space.  Arbitrary code
was mapped as the trampoline table then.  Use the temporary file if the
contents differ.
---
 src/tramp.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..9303abc 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -201,6 +201,31 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * Check that the trampoline file contains the trampoline code table at the
+ * given offset. The file that was found by its path need not be the one that
+ * the running code was mapped from. E.g., it may have been replaced since.
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  const char *text = tramp_globals.text;
+  char buf[512];
+  size_t done, size;
+
+  for (done = 0; done < tramp_globals.map_size; done += size)
+    {
+      size = tramp_globals.map_size - done;
+      if (size > sizeof (buf))
+	size = sizeof (buf);
+      if (pread (tramp_globals.fd, buf, size, tramp_globals.offset + done)
+	    != (ssize_t) size
+	  || memcmp (buf, text + done, size) != 0)
+	return 0;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -244,7 +269,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0


From 932c9dd94e2ebaab65698ac3b66cc745a12e700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 10/49] fix: align the scratch result of Win64 calls without a
 result object

The space for a structure or long double result nobody asked for was
placed right behind the call frame, at an address which is not a multiple
of 16 for an even number of argument slots.  Functions that store their
result with aligned instructions crashed.
---
 src/x86/ffiw64.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index d8a9af4..d53a722 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,7 +121,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
-  size_t rsize, csize;
+  size_t csize;
   char *copy;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
@@ -142,22 +142,19 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   copy = alloca (csize);
 
   flags = cif->flags;
-  rsize = 0;
 
   /* If we have no return value for a structure, we need to create one.
      Otherwise we can ignore the return type entirely.  */
   if (rvalue == NULL)
     {
       if (flags == FFI_TYPE_STRUCT)
-	rsize = cif->rtype->size;
+	rvalue = alloca (cif->rtype->size);
       else
 	flags = FFI_TYPE_VOID;
     }
 
-  stack = alloca(cif->bytes + sizeof(struct win64_call_frame) + rsize);
+  stack = alloca(cif->bytes + sizeof(struct win64_call_frame));
   frame = (struct win64_call_frame *)((char *)stack + cif->bytes);
-  if (rsize)
-    rvalue = frame + 1;
 
   frame->fn = (uintptr_t)fn;
   frame->flags = flags;
-- 
2.43.0


From fcec997fa082cf500d483d8314bdd0b2ec4d1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 11/49] fix: try the next location when a temporary file has no
 room

dlmmap_locked gives up when space cannot be allocated in a temporary file
that it has just opened, and keeps the descriptor.  As with a file that
cannot be mapped, go on with the next location.
---
 src/closures.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 68ac144..b6eb5b2 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -839,7 +839,16 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
   offset = execsize;
 
   if (allocate_space (execfd, length))
-    return MFAIL;
+    {
+      if (!offset)
+	{
+	  /* Nothing was mapped from this file yet: another location may
+	     have room.  */
+	  close (execfd);
+	  goto retry_open;
+	}
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
-- 
2.43.0


From 04acd261867a739a4e2591e873a6a880c1dcfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 12/49] fix: keep the code mapping of closures while their
 memory stays in use

dlmunmap removed the executable mapping of a segment first.  If the memory
itself could then not be unmapped, the heap kept handing it out, with code
addresses that are no longer mapped.
---
 src/closures.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index b6eb5b2..abc13b9 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -967,9 +967,15 @@ dlmunmap (void *start, size_t length)
 
   if (seg && (code = add_segment_exec_offset (start, seg)) != start)
     {
-      int ret = munmap (code, length);
+      /* If this fails, the heap goes on using the memory, so its code
+	 must stay mapped.  Once it is done, the memory is gone, even if
+	 its code mapping cannot be removed.  */
+      int ret = munmap (start, length);
       if (ret)
 	return ret;
+
+      munmap (code, length);
+      return 0;
     }
 
   return munmap (start, length);
-- 
2.43.0


From e5e2b552fdbb22cbd62c4d3667c0999597c04c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 13/49] fix: allocate space in the temporary file where it will
 be mapped

When mapping fails, the file is truncated but its position stays behind the
end, so that the space written on the next attempt does not back the pages
that are then mapped (SIGBUS on a full filesystem).
---
 src/closures.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index abc13b9..81dcb98 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -838,7 +838,9 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
-  if (allocate_space (execfd, length))
+  /* An earlier attempt that failed may have moved the file position.  */
+  if (lseek (execfd, offset, SEEK_SET) == -1
+      || allocate_space (execfd, length))
     {
       if (!offset)
 	{
-- 
2.43.0


From 2272aa9e15202baf5acfb444bdeebfeb4839b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 14/49] fix: initialise the closure heap's parameters without
 data races

Every thread that found page_size unset wrote the parameters again, partly
without holding a lock, while other threads already used them.
---
 src/dlmalloc.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 23f4c8f..7f36f2f 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2206,10 +2206,22 @@ static int has_segment_link(mstate m, msegmentptr ss) {
   anything you like.
 */
 
+/* A nonzero page size tells that mparams is complete; it is looked at
+   without holding a lock.  */
+#ifdef __ATOMIC_ACQUIRE
+#define mparams_ready()\
+  (__atomic_load_n(&mparams.page_size, __ATOMIC_ACQUIRE) != 0)
+#define publish_mparams(S)\
+  __atomic_store_n(&mparams.page_size, (S), __ATOMIC_RELEASE)
+#else
+#define mparams_ready()     (mparams.page_size != 0)
+#define publish_mparams(S)  (mparams.page_size = (S))
+#endif
+
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() (!mparams_ready() && init_mparams())
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,17 +2529,9 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
-  if (mparams.page_size == 0) {
+  if (!mparams_ready()) {
     size_t s;
 
-    mparams.mmap_threshold = DEFAULT_MMAP_THRESHOLD;
-    mparams.trim_threshold = DEFAULT_TRIM_THRESHOLD;
-#if MORECORE_CONTIGUOUS
-    mparams.default_mflags = USE_LOCK_BIT|USE_MMAP_BIT;
-#else  /* MORECORE_CONTIGUOUS */
-    mparams.default_mflags = USE_LOCK_BIT|USE_MMAP_BIT|USE_NONCONTIGUOUS_BIT;
-#endif /* MORECORE_CONTIGUOUS */
-
 #if (FOOTERS && !INSECURE)
     {
 #if USE_DEV_RANDOM
@@ -2552,6 +2556,13 @@ static int init_mparams(void) {
 #endif /* (FOOTERS && !INSECURE) */
     ACQUIRE_MAGIC_INIT_LOCK();
     if (mparams.magic == 0) {
+      mparams.mmap_threshold = DEFAULT_MMAP_THRESHOLD;
+      mparams.trim_threshold = DEFAULT_TRIM_THRESHOLD;
+#if MORECORE_CONTIGUOUS
+      mparams.default_mflags = USE_LOCK_BIT|USE_MMAP_BIT;
+#else  /* MORECORE_CONTIGUOUS */
+      mparams.default_mflags = USE_LOCK_BIT|USE_MMAP_BIT|USE_NONCONTIGUOUS_BIT;
+#endif /* MORECORE_CONTIGUOUS */
       mparams.magic = s;
       /* Set up lock for main malloc area */
       INITIAL_LOCK(&gm->mutex);
@@ -2559,20 +2570,17 @@ static int init_mparams(void) {
 #if !defined(WIN32) && !defined(__OS2__)
       mparams.granularity = ((DEFAULT_GRANULARITY != 0)?
                              DEFAULT_GRANULARITY : malloc_getpagesize);
+      publish_mparams(malloc_getpagesize);
 #endif
     }
     RELEASE_MAGIC_INIT_LOCK();
 
-#if !defined(WIN32) && !defined(__OS2__)
-    /* A nonzero page size tells other threads that mparams is complete, so
-       it has to be the last member that is set.  */
-    mparams.page_size = malloc_getpagesize;
-#elif defined (__OS2__)
+#ifdef __OS2__
  /* if low-memory is used, os2munmap() would break
     if it were anything other than 64k */
     mparams.page_size = 4096u;
     mparams.granularity = 65536u;
-#else /* WIN32 */
+#elif defined(WIN32)
     {
       SYSTEM_INFO system_info;
       GetSystemInfo(&system_info);
-- 
2.43.0


From 20c4f72cee7e875577ce08476386d3dae10191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 15/49] fix: i386: pass small complex integer arguments

Complex types of at most four bytes reached extend_basic_type, which
aborts for them.
---
 src/x86/ffi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 6862533..ee21c73 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -348,7 +348,8 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
         {
 	  ffi_arg val = extend_basic_type (valp, t);
 
@@ -495,7 +496,8 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       int t = ty->type;
       void *valp;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT)
+      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT
+	  && t != FFI_TYPE_COMPLEX)
 	{
 	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
 	    valp = &frame->regs[pabi->regs[narg_reg++]];
-- 
2.43.0


From d577700af9405769f4631a81ff18b45405cfbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 16/49] fix: i386: pop all stack arguments in thiscall and
 fastcall closures

narg_reg is set to 2 to skip registers after 64-bit integers and
structures, so it does not tell how many words were passed in registers.
---
 src/x86/ffi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index ee21c73..c07e64a 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -556,8 +556,9 @@ ffi_closure_inner (struct closure_frame *frame, char *stack)
       return flags | (cif->bytes << X86_RET_POP_SHIFT);
     case FFI_THISCALL:
     case FFI_FASTCALL:
-      return flags | ((cif->bytes - (narg_reg * FFI_SIZEOF_ARG))
-          << X86_RET_POP_SHIFT);
+      /* Pop what was passed on the stack; narg_reg may count registers
+	 that were skipped.  */
+      return flags | ((unsigned)(argp - stack) << X86_RET_POP_SHIFT);
     default:
       return flags;
     }
-- 
2.43.0


From 63207caf0364c056ef31e1718deedfe9d44eda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 17/49] fix: i386: pop the arguments in thiscall and fastcall
 Go closures

ffi_go_closure_EAX serves these two conventions, where the callee pops
its arguments.
---
 src/x86/sysv.S       | 2 +-
 src/x86/sysv_intel.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index c7a0fb5..6c39ab4 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -307,7 +307,7 @@ L(UW7):
 	movl	%edx, closure_CF+28(%esp)
 	movl	%ecx, closure_CF+32(%esp)
 	movl	%eax, closure_CF+36(%esp)	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)		/* the callee pops */
 L(UW8):
 	# cfi_endproc
 ENDF(C(ffi_go_closure_EAX))
diff --git a/src/x86/sysv_intel.S b/src/x86/sysv_intel.S
index cccdf7d..713ccde 100644
--- a/src/x86/sysv_intel.S
+++ b/src/x86/sysv_intel.S
@@ -252,7 +252,7 @@ L(UW7):
 	mov 	[esp+closure_CF+28], edx
 	mov 	[esp+closure_CF+32], ecx
 	mov 	[esp+closure_CF+36], eax	/* closure is user_data */
-	jmp	L(do_closure_i386)
+	jmp	L(do_closure_STDCALL)
 L(UW8):
 	/* cfi_endproc */
 ENDF(ffi_go_closure_EAX)
-- 
2.43.0


From 64af41ccc826ede91b5602b93cc354204bb6fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 18/49] fix: i386: pass all raw arguments where the callee
 expects them

ffi_raw_call misaligned the stack area by masking with ~16, advanced the
raw arguments by bytes times the slot size, and copied the slots of
structures, which hold pointers, as values.
---
 src/x86/ffi.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index c07e64a..3fd5366 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -765,8 +765,7 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
     }
 
   bytes = STACK_ALIGN (cif->bytes);
-  argp = stack =
-      (void *)((uintptr_t)alloca(bytes + sizeof(*frame) + rsize + 15) & ~16);
+  argp = stack = alloca(bytes + sizeof(*frame) + rsize);
   frame = (struct call_frame *)(stack + bytes);
   if (rsize)
     rvalue = frame + 1;
@@ -790,34 +789,51 @@ ffi_raw_call(ffi_cif *cif, void (*fn)(void), void *rvalue, ffi_raw *avalue)
     case X86_RET_STRUCTPOP:
       *(void **)argp = rvalue;
       argp += sizeof(void *);
-      bytes -= sizeof(void *);
       break;
     }
 
   arg_types = cif->arg_types;
-  for (i = 0, n = cif->nargs; narg_reg < pabi->nregs && i < n; i++)
+  for (i = 0, n = cif->nargs; i < n; i++)
     {
       ffi_type *ty = arg_types[i];
       size_t z = ty->size;
       int t = ty->type;
 
-      if (z <= FFI_SIZEOF_ARG && t != FFI_TYPE_STRUCT && t != FFI_TYPE_FLOAT)
+      if (t == FFI_TYPE_STRUCT || t == FFI_TYPE_COMPLEX)
+	{
+	  /* The raw argument is a pointer to the value.  */
+	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	      && t == FFI_TYPE_STRUCT)
+	    narg_reg = 2;
+	  memcpy (argp, avalue->ptr, z);
+	  argp += FFI_ALIGN (z, FFI_SIZEOF_ARG);
+	  avalue++;
+	}
+      else if (z <= FFI_SIZEOF_ARG)
 	{
 	  ffi_arg val = extend_basic_type (avalue, t);
-	  frame->regs[pabi->regs[narg_reg++]] = val;
-	  z = FFI_SIZEOF_ARG;
+
+	  if (t != FFI_TYPE_FLOAT && narg_reg < pabi->nregs)
+	    frame->regs[pabi->regs[narg_reg++]] = val;
+	  else
+	    {
+	      *(ffi_arg *)argp = val;
+	      argp += FFI_SIZEOF_ARG;
+	    }
+	  avalue++;
 	}
       else
 	{
+	  /* See the comment in ffi_call_int.  */
+	  if ((cabi == FFI_THISCALL || cabi == FFI_FASTCALL)
+	      && (t == FFI_TYPE_SINT64 || t == FFI_TYPE_UINT64))
+	    narg_reg = 2;
 	  memcpy (argp, avalue, z);
 	  z = FFI_ALIGN (z, FFI_SIZEOF_ARG);
 	  argp += z;
+	  avalue += z / FFI_SIZEOF_ARG;
 	}
-      avalue += z;
-      bytes -= z;
     }
-  if (i < n)
-    memcpy (argp, avalue, bytes);
 
   ffi_call_i386 (frame, stack);
 }
-- 
2.43.0


From 6656a399a37d15cf8d6011240c34ac838a12c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 19/49] fix: i386: refuse raw closures with complex arguments

They are passed by value, but raw arguments refer to them by pointer,
as for structures.
---
 src/x86/ffi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index 3fd5366..a40af2d 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -698,6 +698,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
     switch (cif->arg_types[i]->type)
       {
       case FFI_TYPE_STRUCT:
+      case FFI_TYPE_COMPLEX:
       case FFI_TYPE_LONGDOUBLE:
 	return FFI_BAD_TYPEDEF;
       }
-- 
2.43.0


From cf4eb5096a68d273e2a297f8a70f7f62dd726df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 20/49] fix: i386: return structures from raw closures

The handler was given a buffer of 16 bytes instead of the caller's
object, and the address of that object as its first raw argument.
---
 src/x86/sysv.S | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 6c39ab4..2725bed 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -683,10 +683,16 @@ L(UW34):
 	movl	%edx, 12(%esp)
 	leal	raw_closure_S_FS+4(%esp), %edx		/* load raw_args */
 	movl	%edx, 8(%esp)
-	leal	16(%esp), %edx				/* load &res */
-	movl	%edx, 4(%esp)
+	leal	16(%esp), %ecx				/* load &res */
 	movl	FFI_TRAMPOLINE_SIZE(%eax), %ebx		/* load cl->cif */
 	movl	%ebx, (%esp)
+	cmpl	$X86_RET_STRUCTPOP, 20(%ebx)		/* result in memory? */
+	jne	L(raw_res4)
+	movl	(%edx), %ecx				/* the caller's object */
+	movl	%ecx, 16(%esp)				/* also returned */
+	addl	$4, 8(%esp)				/* not an argument */
+L(raw_res4):
+	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
 	movl	20(%ebx), %eax				/* load cif->flags */
@@ -800,10 +806,16 @@ L(UW46):
 	movl	%edx, 12(%esp)
 	leal	raw_closure_T_FS+4(%esp), %edx		/* load raw_args */
 	movl	%edx, 8(%esp)
-	leal	16(%esp), %edx				/* load &res */
-	movl	%edx, 4(%esp)
+	leal	16(%esp), %ecx				/* load &res */
 	movl	FFI_TRAMPOLINE_SIZE(%eax), %ebx		/* load cl->cif */
 	movl	%ebx, (%esp)
+	cmpl	$X86_RET_STRUCTARG, 20(%ebx)		/* result in memory? */
+	jne	L(raw_res5)
+	movl	(%edx), %ecx				/* the caller's object */
+	movl	%ecx, 16(%esp)				/* also returned */
+	addl	$4, 8(%esp)				/* not an argument */
+L(raw_res5):
+	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
 	movl	20(%ebx), %eax				/* load cif->flags */
-- 
2.43.0


From fb8a1d2cf5cdead1d34daeb54209396f1241c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 21/49] fix: i386: pop the arguments in thiscall raw closures

Only the word in %ecx was removed.  Refuse signatures whose first argument
is not in %ecx, for which the raw arguments are not consecutive.
---
 src/x86/ffi.c  |  6 ++++++
 src/x86/sysv.S | 32 +++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/x86/ffi.c b/src/x86/ffi.c
index a40af2d..e84da50 100644
--- a/src/x86/ffi.c
+++ b/src/x86/ffi.c
@@ -706,6 +706,12 @@ ffi_prep_raw_closure_loc (ffi_raw_closure *closure,
   switch (cif->abi)
     {
     case FFI_THISCALL:
+      /* ffi_closure_raw_THISCALL puts %ecx in front of the stack arguments:
+	 it must hold the result address or the first argument.  */
+      if (cif->flags != X86_RET_STRUCTARG && cif->nargs > 0
+	  && (cif->arg_types[0]->size > FFI_SIZEOF_ARG
+	      || cif->arg_types[0]->type == FFI_TYPE_FLOAT))
+	return FFI_BAD_TYPEDEF;
       dest = ffi_closure_raw_THISCALL;
       break;
     case FFI_SYSV:
diff --git a/src/x86/sysv.S b/src/x86/sysv.S
index 2725bed..99e561c 100644
--- a/src/x86/sysv.S
+++ b/src/x86/sysv.S
@@ -818,6 +818,13 @@ L(raw_res5):
 	movl	%ecx, 4(%esp)
 	call	*FFI_TRAMPOLINE_SIZE+4(%eax)		/* call cl->fun */
 
+	/* The callee pops its arguments, at least the one we pushed.  */
+	movl	16(%ebx), %ecx				/* load cif->bytes */
+	cmpl	$4, %ecx
+	jae	L(raw_pop5)
+	movl	$4, %ecx
+L(raw_pop5):
+	movl	%ecx, (%esp)
 	movl	20(%ebx), %eax				/* load cif->flags */
 	andl	$X86_RET_TYPE_MASK, %eax
 #ifdef __PIC__
@@ -864,19 +871,13 @@ E(L(load_table5), X86_RET_INT32)
 	/* fallthru */
 E(L(load_table5), X86_RET_VOID)
 L(e5):
-	addl	$raw_closure_T_FS, %esp
-L(UW48):
-	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
-	/* Remove the extra %ecx argument we pushed.  */
-	ret	$4
-L(UW49):
-	# cfi_adjust_cfa_offset(raw_closure_T_FS)
+	jmp	L(pop5)
 E(L(load_table5), X86_RET_STRUCTPOP)
 	addl	$raw_closure_T_FS, %esp
-L(UW50):
+L(UW48):
 	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
 	ret	$8
-L(UW51):
+L(UW49):
 	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 E(L(load_table5), X86_RET_STRUCTARG)
 	jmp	L(e5)
@@ -893,6 +894,19 @@ E(L(load_table5), X86_RET_UNUSED14)
 E(L(load_table5), X86_RET_UNUSED15)
 	ud2
 
+L(pop5):
+	/* Move the return address below what is left of the stack.  */
+	movl	(%esp), %ecx
+	leal	raw_closure_T_FS(%esp, %ecx), %ecx
+	movl	raw_closure_T_FS(%esp), %ebx
+	movl	%ebx, (%ecx)
+	movl	raw_closure_T_FS-4(%esp), %ebx
+	movl	%ecx, %esp
+L(UW50):
+	# cfi_adjust_cfa_offset(-raw_closure_T_FS)
+	ret
+L(UW51):
+	# cfi_adjust_cfa_offset(raw_closure_T_FS)
 L(UW52):
 	# cfi_endproc
 ENDF(C(ffi_closure_raw_THISCALL))
-- 
2.43.0


From a896386697a0f99bf87f119927d6433df68943ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 22/49] fix: aarch64: allocate the stack slot of a by-reference
 argument as a pointer

A structure passed by reference whose pointer does not fit in a register was
given a slot with the alignment of the structure, where the procedure call
standard allocates an ordinary 8-byte slot.
---
 src/aarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 94c643b..6d0e981 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -727,7 +727,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 	      context->x[state.ngrn++] = ext;
 	    else
 	      {
-		void *d = allocate_to_stack (&state, stack, ty->alignment, s);
+		void *d = allocate_to_stack (&state, stack, s, s);
 		state.ngrn = N_X_ARG_REG;
 		/* Note that the default abi extends each argument
 		   to a full 64-bit slot, while the iOS abi allocates
-- 
2.43.0


From c1bf173129b7d582ee1d9daa5e3fbe41b1367a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 23/49] fix: aarch64: reserve stack for the pointers to
 by-reference arguments

Only the sizes of the copies were counted, so that once the registers were used
up the pointers on the stack overlapped the copies.
---
 src/aarch64/ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 6d0e981..262a069 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -610,6 +610,12 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	break;
       }
 
+  /* A composite passed by reference needs room for the pointer and for the
+     alignment of its copy, besides the copy that is already counted.  */
+  for (i = 0; i < n; i++)
+    if (cif->arg_types[i]->size > 16 && !is_vfp_type (cif->arg_types[i]))
+      bytes += 8 + 16;
+
   /* Round the stack up to a multiple of the stack alignment requirement. */
   cif->bytes = (unsigned) FFI_ALIGN(bytes, 16);
   cif->flags = flags;
-- 
2.43.0


From bd7f35ebfbfff81ccaa3216e3f289f5fdc3eb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 24/49] fix: aarch64: align the scratch result of a call

A structure result that the caller does not want was returned to memory that
was aligned to 8 bytes only.
---
 src/aarch64/ffi.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 262a069..a784840 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -692,11 +692,12 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
     rsize = 16;
 
   /* Allocate consecutive stack for everything we'll need.
-     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp */
-  context = alloca (sizeof(struct call_context) + stack_bytes + 40 + rsize);
+     The frame uses 40 bytes for: lr, fp, rvalue, flags, sp, which are
+     rounded up to keep a scratch result aligned.  */
+  context = alloca (sizeof(struct call_context) + stack_bytes + 48 + rsize);
   stack = context + 1;
   frame = (void*)((uintptr_t)stack + (uintptr_t)stack_bytes);
-  rvalue = (rsize ? (void*)((uintptr_t)frame + 40) : orig_rvalue);
+  rvalue = (rsize ? (void*)((uintptr_t)frame + 48) : orig_rvalue);
 
   arg_init (&state, stack_bytes);
   for (i = 0, nargs = cif->nargs; i < nargs; i++)
-- 
2.43.0


From d4925e336988e5c20af6e2d104a9bac2618c6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 25/49] fix: aarch64: sign the return address in Go closures
 with vector arguments

ffi_go_closure_SYSV_V joins a path that authenticates the return address, but
did not sign it, so that with pointer authentication every such call crashed.
---
 src/aarch64/sysv.S | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aarch64/sysv.S b/src/aarch64/sysv.S
index 81d33f2..60ff098 100644
--- a/src/aarch64/sysv.S
+++ b/src/aarch64/sysv.S
@@ -626,6 +626,8 @@ CNAME(ffi_closure_trampoline_table_page):
 CNAME(ffi_go_closure_SYSV_V):
 	cfi_startproc
 	BTI_C
+	SIGN_LR_LINUX_ONLY
+	PAC_CFI_WINDOW_SAVE
 	stp     x29, x30, [sp, #-ffi_closure_SYSV_FS]!
 	cfi_adjust_cfa_offset (ffi_closure_SYSV_FS)
 	cfi_rel_offset (x29, 0)
-- 
2.43.0


From 6e365400fe7fb87e328b8665621f0bac4b4db444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 26/49] fix: riscv: do not convert float arguments when built
 with clang

Tying a float input of an asm to a double output reinterprets the register with
gcc, but clang converts the value, so that floats were passed and received as
doubles.  Move the register explicitly.
---
 src/riscv/ffi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index b455b12..40b8dfc 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -151,7 +151,7 @@ static void marshal_atom(call_builder *cb, int type, void *data) {
            reinterpret floats as doubles */
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(cb->aregs->fa[cb->used_float++]) : "0"(*(float *)data));
+            asm("fmv.s %0, %1" : "=f"(cb->aregs->fa[cb->used_float++]) : "f"(*(float *)data));
             return;
 #endif
 #if ABI_FLEN >= 64
@@ -174,7 +174,7 @@ static void unmarshal_atom(call_builder *cb, int type, void *data) {
     switch (type) {
 #if ABI_FLEN >= 32
         case FFI_TYPE_FLOAT:
-            asm("" : "=f"(*(float *)data) : "0"(cb->aregs->fa[cb->used_float++]));
+            asm("fmv.s %0, %1" : "=f"(*(float *)data) : "f"(cb->aregs->fa[cb->used_float++]));
             return;
 #endif
 #if ABI_FLEN >= 64
-- 
2.43.0


From a6c48f19329cdc13e9b77b26400a993d1dd17079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 27/49] fix: riscv: do not store a result for void functions

The type has size 1, so a byte was copied to the address given for the result.
---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 40b8dfc..52a79ba 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -378,7 +378,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
     ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
     cb.used_float = cb.used_integer = 0;
-    if (!return_by_ref && rvalue)
+    if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
       {
 	if (IS_INT(cif->rtype->type)
 	    && cif->rtype->size < sizeof (ffi_arg))
-- 
2.43.0


From 19a4f47b89eb51e89add5ebf5596d98b36a807d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 28/49] fix: riscv: pass {float} structures like integers when
 the float registers are used up

Structures of a single floating point member were put into a floating point
register even if none was left, that is, over the integer registers.
---
 src/riscv/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 52a79ba..8079fda 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -105,7 +105,7 @@ static float_struct_info struct_passed_as_elements(call_builder *cb, ffi_type *t
     int num_fields = flatten_struct(top, fields, fields + 3) - fields;
 
     if (num_fields == 1) {
-        if (IS_FLOAT(fields[0]->type)) {
+        if (IS_FLOAT(fields[0]->type) && cb->used_float < NARGREG) {
             ret.as_elements = 1;
             ret.type1 = fields[0]->type;
         }
-- 
2.43.0


From cc77963aea730a49062960098bcdb3b00421ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 29/49] fix: riscv: zero-extend 32-bit unsigned results

The register holds them sign-extended, and was stored unchanged.
---
 src/riscv/ffi.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 8079fda..5eeb865 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -395,11 +395,18 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 		break;
 	      case FFI_TYPE_UINT8:
 	      case FFI_TYPE_UINT16:
-	      case FFI_TYPE_UINT32:
 		unmarshal_atom (&cb, (sizeof (ffi_arg) > 4
 				      ? FFI_TYPE_UINT64 : FFI_TYPE_UINT32),
 				rvalue);
 		break;
+	      case FFI_TYPE_UINT32:
+		{
+		  /* Sign-extended in the register.  */
+		  uint32_t value;
+		  unmarshal_atom (&cb, FFI_TYPE_UINT32, &value);
+		  *(ffi_arg *) rvalue = value;
+		  break;
+		}
 	      }
 	  }
 	else
-- 
2.43.0


From 8e508957c02382d5f6ff44653d7d44481673a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 30/49] fix: riscv: align the copies of structures passed by
 reference

A structure with a long double member could be copied to an address that is
aligned to 8 bytes only.
---
 src/riscv/ffi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 5eeb865..5bc849c 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -229,6 +229,7 @@ static void marshal(call_builder *cb, ffi_type *type, int var, void *data) {
 
     if (type->size > 2 * __SIZEOF_POINTER__) {
         /* copy to stack and pass by reference */
+        cb->struct_stack = (void *) FFI_ALIGN (cb->struct_stack, type->alignment);
         data = memcpy (cb->struct_stack, data, type->size);
         cb->struct_stack = (size_t *) FFI_ALIGN ((char *) cb->struct_stack + type->size, __SIZEOF_POINTER__);
         marshal_atom(cb, FFI_TYPE_POINTER, &data);
-- 
2.43.0


From 611c57774b5d4d40f2855115b99e91031f1ea339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 31/49] fix: loongarch: pass {float} structures like integers
 when the float registers are used up

Structures of a single floating point member were put into a floating point
register even if none was left, that is, over the integer registers.
---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 93c3377..3c254c5 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -126,7 +126,7 @@ struct_passed_as_elements (call_builder *cb, ffi_type *top)
 
   if (num_fields == 1)
     {
-      if (IS_FLOAT (fields[0]->type))
+      if (IS_FLOAT (fields[0]->type) && cb->used_float < NARGREG)
 	{
 	  ret.as_elements = 1;
 	  ret.type1 = fields[0]->type;
-- 
2.43.0


From d765c526d5f1f35008d7bb33dd5c68197c532b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 32/49] fix: loongarch: do not store a result for void
 functions

The type has size 1, so a byte was copied to the address given for the result.
---
 src/loongarch64/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 3c254c5..a86f303 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -492,7 +492,7 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
   ffi_call_asm ((void *) alloc_base, cb.aregs, fn, closure);
 
   cb.used_float = cb.used_integer = 0;
-  if (!return_by_ref && rvalue)
+  if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
     unmarshal (&cb, cif->rtype, 0, rvalue);
 }
 
-- 
2.43.0


From f35a62072f16d3f46933775759001396abe8f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 33/49] fix: loongarch: store integers with their own size

Every integer was stored as eight bytes, so that a structure such as
{ float, unsigned char } was written beyond its end, and 32-bit unsigned results
were sign-extended.
---
 src/loongarch64/ffi.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index a86f303..4b0c49f 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -240,10 +240,16 @@ unmarshal_atom (call_builder *cb, int type, void *data)
     {
     case FFI_TYPE_UINT8:
     case FFI_TYPE_SINT8:
+      *(uint8_t *) data = value;
+      break;
     case FFI_TYPE_UINT16:
     case FFI_TYPE_SINT16:
+      *(uint16_t *) data = value;
+      break;
     case FFI_TYPE_UINT32:
     case FFI_TYPE_SINT32:
+      *(uint32_t *) data = value;
+      break;
 #if __SIZEOF_POINTER__ == 8
     case FFI_TYPE_UINT64:
     case FFI_TYPE_SINT64:
@@ -493,7 +499,32 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
 
   cb.used_float = cb.used_integer = 0;
   if (!return_by_ref && rvalue && cif->rtype->type != FFI_TYPE_VOID)
-    unmarshal (&cb, cif->rtype, 0, rvalue);
+    {
+      unmarshal (&cb, cif->rtype, 0, rvalue);
+
+      /* Integer types smaller than ffi_arg need to be extended.  */
+      switch (cif->rtype->type)
+	{
+	case FFI_TYPE_UINT8:
+	  *(ffi_arg *) rvalue = *(uint8_t *) rvalue;
+	  break;
+	case FFI_TYPE_SINT8:
+	  *(ffi_sarg *) rvalue = *(int8_t *) rvalue;
+	  break;
+	case FFI_TYPE_UINT16:
+	  *(ffi_arg *) rvalue = *(uint16_t *) rvalue;
+	  break;
+	case FFI_TYPE_SINT16:
+	  *(ffi_sarg *) rvalue = *(int16_t *) rvalue;
+	  break;
+	case FFI_TYPE_UINT32:
+	  *(ffi_arg *) rvalue = *(uint32_t *) rvalue;
+	  break;
+	case FFI_TYPE_SINT32:
+	  *(ffi_sarg *) rvalue = *(int32_t *) rvalue;
+	  break;
+	}
+    }
 }
 
 void
-- 
2.43.0


From 66aaf3261cf4670ec59e4412fd9583ff959396c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 34/49] fix: loongarch: reserve stack for the pointers to
 by-reference arguments

Only the sizes of the copies were counted, so that once the registers were used
up the pointers on the stack overlapped the copies; nor was the size aligned, as
the scratch result and the copies need.
---
 src/loongarch64/ffi.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/loongarch64/ffi.c b/src/loongarch64/ffi.c
index 4b0c49f..33b8910 100644
--- a/src/loongarch64/ffi.c
+++ b/src/loongarch64/ffi.c
@@ -434,6 +434,16 @@ passed_by_ref (call_builder *cb, ffi_type *type, int var)
 ffi_status
 ffi_prep_cif_machdep (ffi_cif *cif)
 {
+  size_t bytes = cif->bytes;
+  unsigned int i;
+
+  /* A composite passed by reference needs room for the pointer and for the
+     alignment of its copy, besides the copy that is already counted.  */
+  for (i = 0; i < cif->nargs; i++)
+    if (cif->arg_types[i]->size > 2 * __SIZEOF_POINTER__)
+      bytes += __SIZEOF_POINTER__ + STKALIGN;
+
+  cif->bytes = (unsigned int) FFI_ALIGN (bytes, STKALIGN);
   cif->loongarch_nfixedargs = cif->nargs;
   return FFI_OK;
 }
@@ -444,8 +454,9 @@ ffi_status
 ffi_prep_cif_machdep_var (ffi_cif *cif, unsigned int nfixedargs,
 			  unsigned int ntotalargs)
 {
+  ffi_status status = ffi_prep_cif_machdep (cif);
   cif->loongarch_nfixedargs = nfixedargs;
-  return FFI_OK;
+  return status;
 }
 
 /* Low level routine for calling functions.  */
-- 
2.43.0


From 72eec2c1fdc8ece29992c8b054feee0eab796ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 35/49] fix: arm: align the temporary for an ignored structure
 result

---
 src/arm/ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index cfd3e9d..bbe9190 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -354,7 +354,7 @@ struct call_frame
   void *rvalue;
   int flags;
   void *closure;
-};
+} __attribute__ ((aligned (8)));
 
 extern void ffi_call_SYSV (void *stack, struct call_frame *,
 			   void (*fn) (void)) FFI_HIDDEN;
-- 
2.43.0


From 65261ca2955f0dd9bfe672b8eedfd1932be6fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 36/49] fix: arm: a complex result smaller than a word is
 stored with its own size

---
 src/arm/ffi.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index bbe9190..94a3c36 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -387,7 +387,9 @@ ffi_call_int (ffi_cif * cif, void (*fn) (void), void *rvalue,
       /* Largest case is double x 4. */
       rsize = 32;
     }
-  else if (flags == ARM_TYPE_INT && rtype->type == FFI_TYPE_STRUCT)
+  else if (flags == ARM_TYPE_INT
+	   && (rtype->type == FFI_TYPE_STRUCT
+	       || rtype->type == FFI_TYPE_COMPLEX))
     rsize = 4;
 
   /* Largest case.  */
-- 
2.43.0


From 134925d10e1d7f42ec724e92a7e8742498cb5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 37/49] fix: arm: no core registers for arguments after one
 that did not fit

---
 src/arm/ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index 94a3c36..4c07ed6 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -234,6 +234,9 @@ ffi_prep_args_VFP (ffi_cif *cif, int flags, void *rvalue,
 	      FFI_ASSERT (eo_regp < argp);
 	      continue;
 	    }
+	  /* Once an argument did not fit, no later one uses the
+	     remaining core registers.  */
+	  done_with_regs = 1;
 	}
       /* Base case, arguments are passed on the stack */
       stack_used = 1;
@@ -535,6 +538,9 @@ ffi_prep_incoming_args_VFP (ffi_cif *cif, void *rvalue, char *stack,
 		}
 	      continue;
 	    }
+	  /* Once an argument did not fit, no later one uses the
+	     remaining core registers.  */
+	  done_with_regs = 1;
 	}
 
       stack_used = 1;
-- 
2.43.0


From f49b425cbd6c323d35962bfe4b3fbff437ecc2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 38/49] fix: arm: stack space for the address of a complex
 result

---
 src/arm/ffi.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm/ffi.c b/src/arm/ffi.c
index 4c07ed6..af86153 100644
--- a/src/arm/ffi.c
+++ b/src/arm/ffi.c
@@ -312,8 +312,10 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	flags = ARM_TYPE_INT;
       else
 	{
+	  /* The generic code makes space for the address of a structure,
+	     which may also move the padding of the arguments.  */
 	  flags = ARM_TYPE_STRUCT;
-	  bytes += 4;
+	  bytes += 8;
 	}
       break;
 
-- 
2.43.0


From 87d73d866d8d816b4b7d388a42103e0758c03518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 39/49] fix: riscv: results in registers are not stored through
 the scratch result, which the call frees

---
 src/riscv/ffi.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/riscv/ffi.c b/src/riscv/ffi.c
index 5bc849c..c14628d 100644
--- a/src/riscv/ffi.c
+++ b/src/riscv/ffi.c
@@ -359,9 +359,6 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
         alloc_base = FFI_ALIGN(alloca(alloc_size + STKALIGN - 1), STKALIGN);
     }
 
-    if (rval_bytes)
-        rvalue = (void*)(alloc_base + arg_bytes);
-
     call_builder cb;
     cb.used_float = cb.used_integer = 0;
     cb.aregs = (call_context*)(alloc_base + arg_bytes + rval_bytes + struct_bytes);
@@ -369,8 +366,13 @@ ffi_call_int (ffi_cif *cif, void (*fn) (void), void *rvalue, void **avalue,
     cb.struct_stack = (void *) (alloc_base + arg_bytes + rval_bytes);
 
     int return_by_ref = passed_by_ref(&cb, cif->rtype, 0);
-    if (return_by_ref)
+    if (return_by_ref) {
+        /* this memory is free after the call, so it must not be used for
+           results that come back in registers */
+        if (rval_bytes)
+            rvalue = (void*)(alloc_base + arg_bytes);
         marshal(&cb, &ffi_type_pointer, 0, &rvalue);
+    }
 
     int i;
     for (i = 0; i < cif->nargs; i++)
-- 
2.43.0


From dbf7e0072e4cc6a1bf5a811de8069e95406a54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 40/49] fix: x86-64 closures: structures with a padding
 eightbyte or 16-byte alignment

A structure whose description gives it a size and alignment of its own can
have an eightbyte without members.  It takes no register, but closures
counted one, so that the following integer arguments were misplaced.  And
a structure with 16-byte alignment needs an aligned copy for the handler.
---
 src/x86/ffi64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index ee4cc6b..b650884 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -853,9 +853,8 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	}
       /* If the argument is in a single register, or two consecutive
 	 integer registers, then we can use that address directly.  */
-      else if (n == 1
-	       || (n == 2 && !(SSE_CLASS_P (classes[0])
-			       || SSE_CLASS_P (classes[1]))))
+      else if (arg_types[i]->alignment <= 8
+	       && (n == 1 || (n == 2 && ngpr == 2)))
 	{
 	  /* The argument is in a single register.  */
 	  if (SSE_CLASS_P (classes[0]))
@@ -869,7 +868,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	      gprcount += n;
 	    }
 	}
-      /* Otherwise, allocate space to make them consecutive.  */
+      /* Otherwise, allocate space to make them consecutive and aligned.  */
       else
 	{
 	  char *a = alloca (16);
@@ -880,7 +879,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	    {
 	      if (SSE_CLASS_P (classes[j]))
 		memcpy (a, &reg_args->sse[ssecount++], 8);
-	      else
+	      else if (classes[j] != X86_64_NO_CLASS)
 		memcpy (a, &reg_args->gpr[gprcount++], 8);
 	    }
 	}
-- 
2.43.0


From 7cd1cf1c680fa288254b37f951da09b52f7a4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 41/49] fix: powerpc64: homogeneous floating point aggregates
 are aligned like their elements in the parameter area

---
 src/powerpc/ffi_linux64.c | 54 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 90100a4..7db0af6 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -127,6 +127,21 @@ discover_homogeneous_aggregate (ffi_abi abi,
 }
 
 
+/* The alignment of a structure in the parameter save area.  Homogeneous
+   floating point aggregates are aligned like their elements there.  */
+static unsigned int
+aggregate_align (ffi_abi abi, const ffi_type *t, unsigned int elt)
+{
+  if ((abi & FFI_LINUX_STRUCT_ALIGN) == 0 || t->alignment < 16)
+    return 8;
+#if FFI_TYPE_LONGDOUBLE != FFI_TYPE_DOUBLE
+  if (elt == FFI_TYPE_LONGDOUBLE && (abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)
+    return 16;
+#endif
+  return elt ? 8 : 16;
+}
+
+
 /* Perform machine dependent cif processing */
 static ffi_status
 ffi_prep_cif_linux64_core (ffi_cif *cif)
@@ -264,17 +279,10 @@ homogeneous:
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
-	    {
-	      align = (*ptr)->alignment;
-	      if (align > 16)
-		align = 16;
-	      align = align / 8;
-	      if (align > 1)
-		intarg_count = FFI_ALIGN (intarg_count, align);
-	    }
-	  intarg_count += ((*ptr)->size + 7) / 8;
 	  elt = discover_homogeneous_aggregate (cif->abi, *ptr, &elnum);
+	  align = aggregate_align (cif->abi, *ptr, elt) / 8;
+	  intarg_count = FFI_ALIGN (intarg_count, align);
+	  intarg_count += ((*ptr)->size + 7) / 8;
 #if FFI_TYPE_LONGDOUBLE != FFI_TYPE_DOUBLE
           if (elt == FFI_TYPE_LONGDOUBLE &&
               (cif->abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)
@@ -649,19 +657,11 @@ ffi_prep_args64 (extended_cif *ecif, unsigned long *const stack)
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((ecif->cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
-	    {
-	      align = (*ptr)->alignment;
-	      if (align > 16)
-		align = 16;
-	      if (align > 1)
-                {
-                  next_arg.p = FFI_ALIGN (next_arg.p, align);
-                  if (next_arg.ul == gpr_end.ul)
-                    next_arg.ul = rest.ul;
-                }
-	    }
 	  elt = discover_homogeneous_aggregate (ecif->cif->abi, *ptr, &elnum);
+	  align = aggregate_align (ecif->cif->abi, *ptr, elt);
+	  next_arg.p = FFI_ALIGN (next_arg.p, align);
+	  if (next_arg.ul == gpr_end.ul)
+	    next_arg.ul = rest.ul;
 	  if (elt)
 	    {
 #if _CALL_ELF == 2
@@ -943,15 +943,9 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
 	  break;
 
 	case FFI_TYPE_STRUCT:
-	  if ((cif->abi & FFI_LINUX_STRUCT_ALIGN) != 0)
-	    {
-	      align = arg_types[i]->alignment;
-	      if (align > 16)
-		align = 16;
-	      if (align > 1)
-		pst = (unsigned long *) FFI_ALIGN ((size_t) pst, align);
-	    }
 	  elt = discover_homogeneous_aggregate (cif->abi, arg_types[i], &elnum);
+	  align = aggregate_align (cif->abi, arg_types[i], elt);
+	  pst = (unsigned long *) FFI_ALIGN ((size_t) pst, align);
 	  if (elt)
 	    {
 #if _CALL_ELF == 2
-- 
2.43.0


From ae886e97ac011b09705fff4f3c8bb74f21b0c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 42/49] fix: powerpc64 closures: the last fixed long double,
 and one in f12 and f13, come from the floating registers

---
 src/powerpc/ffi_linux64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index 7db0af6..e4f392c 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -1065,7 +1065,7 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
             }
           else if ((cif->abi & FFI_LINUX_LONG_DOUBLE_128) != 0)
 	    {
-	      if (pfr + 1 < end_pfr && i + 1 < nfixedargs)
+	      if (pfr + 2 <= end_pfr && i < nfixedargs)
 		{
 		  avalue[i] = pfr;
 		  pfr += 2;
-- 
2.43.0


From c88c07965907e01481d7c98f9a33d01222a092f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 43/49] fix: powerpc64: a caller need not provide a parameter
 save area when GPRs take what FPRs cannot

---
 src/powerpc/ffi_linux64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index e4f392c..a134c16 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -274,7 +274,8 @@ homogeneous:
 	case FFI_TYPE_FLOAT:
 	  fparg_count++;
 	  intarg_count++;
-	  if (fparg_count > NUM_FPR_ARG_REGISTERS64)
+	  if (fparg_count > NUM_FPR_ARG_REGISTERS64
+	      && intarg_count > NUM_GPR_ARG_REGISTERS64)
 	    flags |= FLAG_ARG_NEEDS_PSAVE;
 	  break;
 
@@ -297,7 +298,10 @@ homogeneous:
 	  if (elt)
 	    {
 	      fparg_count += elnum;
-	      if (fparg_count > NUM_FPR_ARG_REGISTERS64)
+	      /* What does not fit in FPRs goes to GPRs while there are any.
+		 A caller need not provide the area in that case.  */
+	      if (fparg_count > NUM_FPR_ARG_REGISTERS64
+		  && intarg_count > NUM_GPR_ARG_REGISTERS64)
 		flags |= FLAG_ARG_NEEDS_PSAVE;
 	    }
 	  else
-- 
2.43.0


From 32fcf2aaaf8269cb79799813addd405520fcd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 44/49] fix: powerpc64 closures: variadic homogeneous
 aggregates do not share one place

---
 src/powerpc/ffi_linux64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/powerpc/ffi_linux64.c b/src/powerpc/ffi_linux64.c
index a134c16..2ab864b 100644
--- a/src/powerpc/ffi_linux64.c
+++ b/src/powerpc/ffi_linux64.c
@@ -970,14 +970,14 @@ ffi_closure_helper_LINUX64 (ffi_cif *cif,
               if (elt == FFI_TYPE_LONGDOUBLE &&
                   (cif->abi & FFI_LINUX_LONG_DOUBLE_IEEE128) != 0)
                 {
-                  if (pvec + elnum <= end_pvec)
+                  if (pvec + elnum <= end_pvec && i < nfixedargs)
                     to.v = pvec;
                   else
                     to.v = pst;
                 }
               else
 #endif
-	      if (pfr + elnum <= end_pfr)
+	      if (pfr + elnum <= end_pfr && i < nfixedargs)
 		to.v = pfr;
 	      else
 		to.v = pst;
-- 
2.43.0


From 64bd92f32130b58c0ef4672f16284e1bb00bbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 45/49] fix: aarch64: FFI_WIN64 variadic calls pass homogeneous
 aggregates like other structures

---
 src/aarch64/ffi.c | 111 ++++++++++++++++++----------------------------
 1 file changed, 43 insertions(+), 68 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index a784840..3e4cb34 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -613,7 +613,8 @@ ffi_prep_cif_machdep (ffi_cif *cif)
   /* A composite passed by reference needs room for the pointer and for the
      alignment of its copy, besides the copy that is already counted.  */
   for (i = 0; i < n; i++)
-    if (cif->arg_types[i]->size > 16 && !is_vfp_type (cif->arg_types[i]))
+    if (cif->arg_types[i]->size > 16
+	&& (cif->abi == FFI_WIN64 || !is_vfp_type (cif->arg_types[i])))
       bytes += 8 + 16;
 
   /* Round the stack up to a multiple of the stack alignment requirement. */
@@ -754,34 +755,24 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 	case FFI_TYPE_STRUCT:
 	case FFI_TYPE_COMPLEX:
 	  {
-	    h = is_vfp_type (ty);
+	    /* In variadic functions Windows treats floating-point values and
+	       homogeneous aggregates like any other type of their size.  */
+	    if (cif->abi == FFI_WIN64 && isvariadic)
+	      h = 0;
+	    else
+	      h = is_vfp_type (ty);
 	    if (h)
 	      {
-              int elems = 4 - (h & 3);
-              if (cif->abi == FFI_WIN64 && isvariadic)
-              {
-                if (state.ngrn + elems <= N_X_ARG_REG)
-                {
-                  dest = &context->x[state.ngrn];
-                  state.ngrn += elems;
-                  extend_hfa_type(dest, a, h);
-                  break;
-                }
-                state.nsrn = N_X_ARG_REG;
-                dest = allocate_to_stack(&state, stack, ty->alignment, s);
-              }
-              else
-              {
-                if (state.nsrn + elems <= N_V_ARG_REG)
-                {
-                  dest = &context->v[state.nsrn];
-                  state.nsrn += elems;
-                  extend_hfa_type (dest, a, h);
-                  break;
-                }
-                state.nsrn = N_V_ARG_REG;
-                dest = allocate_to_stack (&state, stack, ty->alignment, s);
-              }
+		int elems = 4 - (h & 3);
+		if (state.nsrn + elems <= N_V_ARG_REG)
+		  {
+		    dest = &context->v[state.nsrn];
+		    state.nsrn += elems;
+		    extend_hfa_type (dest, a, h);
+		    break;
+		  }
+		state.nsrn = N_V_ARG_REG;
+		dest = allocate_to_stack (&state, stack, ty->alignment, s);
 	      }
 	    else if (s > 16)
 	      {
@@ -1035,50 +1026,34 @@ ffi_closure_SYSV_inner (ffi_cif *cif,
 	case FFI_TYPE_LONGDOUBLE:
 	case FFI_TYPE_STRUCT:
 	case FFI_TYPE_COMPLEX:
-	  h = is_vfp_type (ty);
+	  if (cif->abi == FFI_WIN64 && isvariadic)
+	    h = 0;
+	  else
+	    h = is_vfp_type (ty);
 	  if (h)
 	    {
 	      n = 4 - (h & 3);
-              if (cif->abi == FFI_WIN64 && isvariadic)
-                {
-                  if (state.ngrn + n <= N_X_ARG_REG)
-                    {
-                      void *reg = &context->x[state.ngrn];
-                      state.ngrn += (unsigned int)n;
-
-                      /* Eeek! We need a pointer to the structure, however the
-                       homogeneous float elements are being passed in individual
-                       registers, therefore for float and double the structure
-                       is not represented as a contiguous sequence of bytes in
-                       our saved register context.  We don't need the original
-                       contents of the register storage, so we reformat the
-                       structure into the same memory.  */
-                      avalue[i] = compress_hfa_type(reg, reg, h);
-                    }
-                  else
-                    {
-                      state.ngrn = N_X_ARG_REG;
-                      state.nsrn = N_V_ARG_REG;
-                      avalue[i] = allocate_to_stack(&state, stack,
-                             ty->alignment, s);
-                    }
-                }
-              else
-                {
-                  if (state.nsrn + n <= N_V_ARG_REG)
-                    {
-                      void *reg = &context->v[state.nsrn];
-                      state.nsrn += (unsigned int)n;
-                      avalue[i] = compress_hfa_type(reg, reg, h);
-                    }
-                  else
-                    {
-                      state.nsrn = N_V_ARG_REG;
-                      avalue[i] = allocate_to_stack(&state, stack,
-                                                   ty->alignment, s);
-                    }
-                }
-            }
+	      if (state.nsrn + n <= N_V_ARG_REG)
+		{
+		  void *reg = &context->v[state.nsrn];
+		  state.nsrn += (unsigned int)n;
+
+		  /* Eeek! We need a pointer to the structure, however the
+		     homogeneous float elements are being passed in individual
+		     registers, therefore for float and double the structure
+		     is not represented as a contiguous sequence of bytes in
+		     our saved register context.  We don't need the original
+		     contents of the register storage, so we reformat the
+		     structure into the same memory.  */
+		  avalue[i] = compress_hfa_type (reg, reg, h);
+		}
+	      else
+		{
+		  state.nsrn = N_V_ARG_REG;
+		  avalue[i] = allocate_to_stack (&state, stack,
+						 ty->alignment, s);
+		}
+	    }
           else if (s > 16)
             {
               /* Replace Composite type of size greater than 16 with a
-- 
2.43.0


From 7503e2676e79db3eacd0261bbde3581efc6f1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 46/49] fix: aarch64: small structures on the stack occupy
 whole double-words on Apple systems

---
 src/aarch64/ffi.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aarch64/ffi.c b/src/aarch64/ffi.c
index 3e4cb34..4cd1d88 100644
--- a/src/aarch64/ffi.c
+++ b/src/aarch64/ffi.c
@@ -804,9 +804,12 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *orig_rvalue,
 		    /* Otherwise, there are insufficient X registers. Further
 		       X register allocations are prevented, the NSAA is
 		       adjusted and the argument is copied to memory at the
-		       adjusted NSAA.  */
+		       adjusted NSAA.  It occupies whole double-words, also
+		       where smaller arguments are packed.  */
 		    state.ngrn = N_X_ARG_REG;
-		    dest = allocate_to_stack (&state, stack, ty->alignment, s);
+		    dest = allocate_to_stack (&state, stack,
+					      FFI_ALIGN (ty->alignment, 8),
+					      n * 8);
 		  }
 		}
 	      memcpy (dest, a, s);
@@ -1082,8 +1085,9 @@ ffi_closure_SYSV_inner (ffi_cif *cif,
               else
                 {
                   state.ngrn = N_X_ARG_REG;
-                  avalue[i] = allocate_to_stack(&state, stack,
-                                           ty->alignment, s);
+                  avalue[i] = allocate_to_stack (&state, stack,
+                                                 FFI_ALIGN (ty->alignment, 8),
+                                                 n * 8);
                 }
             }
           break;
-- 
2.43.0


From bba5379f699b9a0b51086747b33ee1ef1943bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 47/49] fix: trampoline tables: an allocation that fails for
 want of memory returns NULL

---
 src/closures.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 81dcb98..350e6ee 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -256,12 +256,23 @@ ffi_trampoline_table_alloc (void)
 
   /* We have valid trampoline and config pages */
   table = calloc (1, sizeof (ffi_trampoline_table));
+  if (table == NULL)
+    {
+      vm_deallocate (mach_task_self (), config_page, PAGE_MAX_SIZE * 2);
+      return NULL;
+    }
   table->free_count = FFI_TRAMPOLINE_COUNT;
   table->config_page = config_page;
 
   /* Create and initialize the free list */
   table->free_list_pool =
     calloc (FFI_TRAMPOLINE_COUNT, sizeof (ffi_trampoline_table_entry));
+  if (table->free_list_pool == NULL)
+    {
+      vm_deallocate (mach_task_self (), config_page, PAGE_MAX_SIZE * 2);
+      free (table);
+      return NULL;
+    }
 
   for (i = 0; i < table->free_count; i++)
     {
-- 
2.43.0


From 7ada4ac1b996b238a4bef229043adb11400d1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 48/49] fix: trampoline tables: take a table out of the list
 before it is moved to the top

---
 src/closures.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 350e6ee..2169f5e 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -382,6 +382,11 @@ ffi_closure_free (void *ptr)
   else if (ffi_trampoline_tables != table)
     {
       /* Otherwise, bump this table to the top of the list */
+      if (table->prev != NULL)
+	table->prev->next = table->next;
+      if (table->next != NULL)
+	table->next->prev = table->prev;
+
       table->prev = NULL;
       table->next = ffi_trampoline_tables;
       if (ffi_trampoline_tables != NULL)
-- 
2.43.0


From 2c32a0f486658b0c15f4007f7445859248858976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 49/49] fix: trampoline tables: a table whose trampolines are
 all free is not lost below the top of the list

---
 src/closures.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/closures.c b/src/closures.c
index 2169f5e..10590dd 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -393,6 +393,11 @@ ffi_closure_free (void *ptr)
 	ffi_trampoline_tables->prev = table;
 
       ffi_trampoline_tables = table;
+
+      /* The former top of the list is not looked at any more until one of
+         its trampolines is freed, so it has to go now if all are free.  */
+      if (table->next->free_count == FFI_TRAMPOLINE_COUNT)
+	ffi_trampoline_table_free (table->next);
     }
 
   pthread_mutex_unlock (&ffi_trampoline_lock);
-- 
2.43.0

