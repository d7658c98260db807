From 884ec0f7914e1cdc405d2677327d4877c4257f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 01/44] fix: order index keys of different sizes by words, as
 keys of equal size

SASIndexKeyCompare used memcmp (byte order) for keys of different sizes
and unsigned word order for keys of the same size, so on little endian
machines the order was not transitive.
---
 src/sasindexkey.h | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 659cc77..c5269d9 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -94,36 +94,29 @@ SASIndexKeyCompare (const SASIndexKey_t * op_a, const SASIndexKey_t * op_b)
   else
     {
       size_t len = op_a->compare_size;
+      unsigned int i;
 
-      if (op_a->compare_size != op_b->compare_size)
-	{
-	  if (op_a->compare_size > op_b->compare_size)
-	    len = op_b->compare_size;
-
-	  rc = memcmp (&op_a->data[0], &op_b->data[0], len);
+      if (op_a->compare_size > op_b->compare_size)
+	len = op_b->compare_size;
 
-	  if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
+      for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
+	{
+	  if (op_a->data[i] != op_b->data[i])
 	    {
-	      if (op_a->compare_size < op_b->compare_size)
-		rc = -1;
-	      else
+	      if (op_a->data[i] > op_b->data[i])
 		rc = 1;
+	      else
+		rc = -1;
+	      break;
 	    }
 	}
-      else if (len > sizeof (machine_uint_t))
+
+      if ((rc == 0) && (op_a->compare_size != op_b->compare_size))
 	{
-	  unsigned int i = 1;
-	  for (i = 1; i < (len / sizeof (machine_uint_t)); i++)
-	    {
-	      if (op_a->data[i] != op_b->data[i])
-		{
-		  if (op_a->data[i] > op_b->data[i])
-		    rc = 1;
-		  else
-		    rc = -1;
-		  break;
-		}
-	    }
+	  if (op_a->compare_size < op_b->compare_size)
+	    rc = -1;
+	  else
+	    rc = 1;
 	}
     }
   return rc;
-- 
2.43.0


From 7100c620956c82d43a6d3f6f1625c5c23dec2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 02/44] fix: index key of -0.0 sorted below -infinity and read
 back as NaN

---
 src/sasindexkey.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index c5269d9..867b826 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -306,14 +306,15 @@ SASIndexKeyInitDouble (SASIndexKey_t * dest, double value)
 #ifdef __WORDSIZE_64
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-  if (value < 0.0)
+  /* test the sign bit, not the value: -0.0 is not less than 0.0 */
+  if (key_val.key_element & machine_sign_mask)
 	  dest->data[0] = key_val.key_element ^ double_mask;
   else
 	  dest->data[0] = key_val.key_element ^ machine_sign_mask;
 #else
   dest->compare_size = sizeof (unsigned long long);
   dest->copy_size = sizeof (void *) + sizeof (unsigned long long);
-  if (value < 0.0)
+  if (key_val.key_element.data_0 & machine_sign_mask)
     {
 	  dest->data[0] = key_val.key_element.data_0 ^ double_mask;
 	  dest->data[1] = key_val.key_element.data_1 ^ double_mask;
-- 
2.43.0


From d25d8f1b2be663bc4da953e2491427d37b244ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/44] fix: sasindexkey.h chose the 32-bit key layout when
 included before sasconf.h

---
 src/sasindexkey.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sasindexkey.h b/src/sasindexkey.h
index 867b826..a82d274 100644
--- a/src/sasindexkey.h
+++ b/src/sasindexkey.h
@@ -13,6 +13,7 @@
 #define __SAS_INDEXKEY_H
 
 #include <string.h>
+#include "sasconf.h"
 
 /*!
  * \file  sasindexkey.h
-- 
2.43.0


From a6c8ae355ad80b11fbd294f1a5dfbd4d7d570479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 04/44] fix: entry struct allocation ran past the entry when
 its alignment padding exceeds the remaining space

len is unsigned, so subtracting more padding than there is space left
wrapped around and the size check passed.
---
 src/sphlfentry.h    | 20 ++++++--------------
 src/sphlflogentry.h | 20 ++++++--------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index 4e5743a..b9ece60 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -394,16 +394,12 @@ SPHLFEntryGetStructPtr (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if ((len >= adjust) && ((len - adjust) >= __size))
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -449,16 +445,12 @@ SPHLFEntryAllocStruct (SPHLFEntryHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if ((len >= adjust) && ((len - adjust) >= __size))
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index b8147dd..c6c59f0 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -326,16 +326,12 @@ SPHLFlogEntryGetStructPtr (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if ((len >= adjust) && ((len - adjust) >= __size))
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
@@ -381,16 +377,12 @@ SPHLFlogEntryAllocStruct (SPHLFLoggerHandle_t *handle,
 		+ adjust)
 		& mask);
 
-	if ((unsigned long)ptr != (unsigned long)handle->next)
-	{
-		len -= ((unsigned long)ptr
-			- (unsigned long)handle->next);
-	}
+	adjust = (unsigned long)ptr - (unsigned long)handle->next;
 
-	if (len >= __size)
+	if ((len >= adjust) && ((len - adjust) >= __size))
 	{
 		handle->next = ptr + __size;
-		handle->remaining = len - __size;
+		handle->remaining = len - adjust - __size;
 	} else {
 		ptr = NULL;
 	}
-- 
2.43.0


From 83074337784360c6041d964a697753801e75eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 05/44] fix: strings of 2GB and more passed the entry size
 check as a negative length

---
 src/sphlfentry.h    | 4 ++--
 src/sphlflogentry.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sphlfentry.h b/src/sphlfentry.h
index b9ece60..12494c7 100644
--- a/src/sphlfentry.h
+++ b/src/sphlfentry.h
@@ -471,7 +471,7 @@ SPHLFEntryAddString (SPHLFEntryHandle_t *handle,
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(value) + 1);
+	size_t		vlen	= (strlen(value) + 1);
 	int		rc	= 0;
 
 	if (len >= vlen)
@@ -822,7 +822,7 @@ SPHLFEntryGetNextString (SPHLFEntryHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	size_t		vlen	= (strlen(ptr) + 1);
 	char		*value	= 0;
 
 	if (len >= vlen)
diff --git a/src/sphlflogentry.h b/src/sphlflogentry.h
index c6c59f0..3402cba 100644
--- a/src/sphlflogentry.h
+++ b/src/sphlflogentry.h
@@ -403,7 +403,7 @@ SPHLFlogEntryAddString (SPHLFLoggerHandle_t *handle,
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(value) + 1);
+	size_t		vlen	= (strlen(value) + 1);
 	int		rc	= 0;
 
 	if (len >= vlen)
@@ -754,7 +754,7 @@ SPHLFlogEntryGetNextString (SPHLFLoggerHandle_t *handle)
 {
 	char		*ptr	= handle->next;
 	unsigned short int	len	= handle->remaining;
-	int		vlen	= (strlen(ptr) + 1);
+	size_t		vlen	= (strlen(ptr) + 1);
 	char		*value	= 0;
 
 	if (len >= vlen)
-- 
2.43.0


From ce2bc96e990cd082eb2936316317ba389fa0dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 06/44] fix: logger entry stride was not rounded to the 16 byte
 allocation unit

The mask cleared only one bit, so a stride of 24 became 40 and entries were
misaligned and recorded the wrong length.
---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 9f46dc4..82e6a0a 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -91,7 +91,7 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->end_log_buf = (longPtr_t) stackEnd;
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
-  heapBlock->default_entry_stride = (stride + round) & ~round;
+  heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
-- 
2.43.0


From 9c8ccb4125957f2431c02a347377d3e81036dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 07/44] fix: iterating a wrapped circular log at its end

With the next free entry at the end of the buffer the iterator returned
nothing, and with the oldest entry in the last slot it never stopped.
---
 src/sphlflogger.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 82e6a0a..4c8b436 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -695,15 +695,12 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	  if ((log_options & SPHLFLOGGER_CIRCULAR)
 	      && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	    {
-	      if (lPtr >= iterator->end_log)
-		{
-		  iterator->current = iterator->start_log;
-		  handle = handleorg;
-		}
-	      else if ((prev != iterator->free)
-		       || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
-			   != SPHLFLOGGER_CIRCULAR_NOTFIRST))
+	      if ((prev != iterator->free)
+		  || ((log_options & SPHLFLOGGER_CIRCULAR_NOTFIRST)
+		      != SPHLFLOGGER_CIRCULAR_NOTFIRST))
 		{
+		  if (lPtr >= iterator->end_log)
+		    lPtr = iterator->start_log;
 		  iterator->current = lPtr;
 		  handle = handleorg;
 		}
@@ -754,7 +751,10 @@ SPHLFLoggerCreateIterator (SPHLFLogger_t log,
       if ((log_options & SPHLFLOGGER_CIRCULAR)
 	  && (log_options & SPHLFLOGGER_CIRCULAR_WRAPED))
 	{
-	  iter->current = headerBlock->next_free;
+	  /* a log that was just filled continues at its start.  */
+	  if (iter->free >= iter->end_log)
+	    iter->free = iter->start_log;
+	  iter->current = iter->free;
 	}
       else
 	{
-- 
2.43.0


From 5ef788951db9b7e61fca98c22ed974152b433470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 08/44] fix: setting the logger's cache prefetch cleared its
 other options

A circular logger stopped being circular.
---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 4c8b436..ca396e0 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -1014,7 +1014,7 @@ SPHLFLoggerSetCachePrefetch (SPHLFLogger_t log, int prefetch)
 	  if (prefetch == 1)
 	    prefetch_opt = SPHLFLOGGER_CACHE_PREFETCH0;
 	}
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From e144ba1749e67d950957608bc1645fcefb29c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 09/44] fix: iterating a wrapped circular log stopped at unused
 space behind the last entry

When the stride does not divide the buffer the newest entries were never returned.
---
 src/sphlflogger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index ca396e0..fe4033d 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -92,6 +92,12 @@ SPHLFLoggerInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = (stride + round - 1) & ~(round - 1);
+  /* a circular log wraps after a whole number of entries, otherwise the
+     unused bytes at its end stop the iterator.  */
+  if ((options & SPHLFLOGGER_CIRCULAR) && heapBlock->default_entry_stride)
+    heapBlock->end_log_buf -= (heapBlock->end_log_buf
+			       - heapBlock->start_log_buf)
+      % heapBlock->default_entry_stride;
 
   remaining = DEFAULT_PAGE - sizeof (SASLFLoggerHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
-- 
2.43.0


From f6ed617dcde772004cd9ec3739bf2976631ddf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 10/44] fix: timestamped log allocation reported success for a
 block that is not a logger

The caller's uninitialized handle was returned instead of NULL.
---
 src/sphlflogger.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index fe4033d..a8ec0ff 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -204,7 +204,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 			     SPHLFLoggerHandle_t * handleorg)
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
-  SPHLFLoggerHandle_t *handlespace = handleorg;
+  SPHLFLoggerHandle_t *handlespace = NULL;
   longPtr_t round;
   longPtr_t alloc_round;
   longPtr_t log_entry;
@@ -242,6 +242,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
 	  entryPtr->PID = sphFastGetPID ();
 	  entryPtr->TID = sphFastGetTID ();
 
+	  handlespace = handleorg;
 	  handlespace->entry = entryPtr;
 	  handlespace->next =
 	    (char *) (log_entry + sizeof (SPHLFLogHeader_t));
@@ -332,7 +333,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 				   SPHLFLoggerHandle_t * handleorg)
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
-  SPHLFLoggerHandle_t *handlespace = handleorg;
+  SPHLFLoggerHandle_t *handlespace = NULL;
   longPtr_t alloc_round = 0;
   longPtr_t log_entry;
 
@@ -372,6 +373,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
 	  entryPtr->PID = sphFastGetPID ();
 	  entryPtr->TID = sphFastGetTID ();
 
+	  handlespace = handleorg;
 	  handlespace->entry = entryPtr;
 	  handlespace->next =
 	    (char *) (log_entry + sizeof (SPHLFLogHeader_t));
@@ -462,7 +464,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 				   SPHLFLoggerHandle_t * handleorg)
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
-  SPHLFLoggerHandle_t *handlespace = handleorg;
+  SPHLFLoggerHandle_t *handlespace = NULL;
   longPtr_t round;
   longPtr_t alloc_round;
   longPtr_t log_entry;
@@ -496,6 +498,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
 	  entryPtr->PID = sphFastGetPID ();
 	  entryPtr->TID = sphFastGetTID ();
 
+	  handlespace = handleorg;
 	  handlespace->entry = entryPtr;
 	  handlespace->next =
 	    (char *) (log_entry + sizeof (SPHLFLogHeader_t));
@@ -539,7 +542,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 					 SPHLFLoggerHandle_t * handleorg)
 {
   SASLFLoggerHeader *headerBlock = (SASLFLoggerHeader *) log;
-  SPHLFLoggerHandle_t *handlespace = handleorg;
+  SPHLFLoggerHandle_t *handlespace = NULL;
   longPtr_t alloc_round = 0;
   longPtr_t log_entry;
 
@@ -575,6 +578,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
 	  entryPtr->PID = sphFastGetPID ();
 	  entryPtr->TID = sphFastGetTID ();
 
+	  handlespace = handleorg;
 	  handlespace->entry = entryPtr;
 	  handlespace->next =
 	    (char *) (log_entry + sizeof (SPHLFLogHeader_t));
-- 
2.43.0


From 87a81f7d4981c43ef3e93e919e01ad9dbb11a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 11/44] fix: log allocation larger than the log

The size wrapped around, moved the free pointer backwards and handed out
allocated space again; in a circular logger the allocation recursed forever.
---
 src/sphlflogger.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index a8ec0ff..8b852e9 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -170,7 +170,9 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
   longPtr_t log_entry = 0;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_LOCKFREELOGGER))
+				  SAS_RUNTIME_LOCKFREELOGGER)
+      && (alloc_size <=
+	  headerBlock->end_log_buf - headerBlock->start_log_buf))
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + round) & ~round;
@@ -210,7 +212,10 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
   longPtr_t log_entry;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_LOCKFREELOGGER))
+				  SAS_RUNTIME_LOCKFREELOGGER)
+      && (alloc_size <=
+	  headerBlock->end_log_buf - headerBlock->start_log_buf
+	  - sizeof (SPHLFLogHeader_t)))
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
@@ -470,7 +475,10 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
   longPtr_t log_entry;
 
   if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
-				  SAS_RUNTIME_LOCKFREELOGGER))
+				  SAS_RUNTIME_LOCKFREELOGGER)
+      && (alloc_size <=
+	  headerBlock->end_log_buf - headerBlock->start_log_buf
+	  - sizeof (SPHLFLogHeader_t)))
     {
       round = ~headerBlock->align_mask;
       alloc_round = (alloc_size + sizeof (SPHLFLogHeader_t) + round) & ~round;
-- 
2.43.0


From 92973aa183bd4586cc149373aff86dde036e304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 12/44] fix: log iterator returned stale data behind the last
 entry of a full log

---
 src/sphlflogger.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index 8b852e9..eaaa438 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -161,6 +161,16 @@ SPHLFCircularLoggerCreate (block_size_t buf_size, unsigned short stride)
     return NULL;
 }
 
+/* The allocation that crosses the end of a log gets no entry, but it owns
+   the space left over behind the last one.  Mark that space as not a
+   (complete) entry, it may hold old data and the iterator looks at it.  */
+static inline void
+SPHLFLoggerMarkEnd (SASLFLoggerHeader *headerBlock, longPtr_t log_entry)
+{
+  if (log_entry < headerBlock->end_log_buf)
+    ((SPHLFLogHeader_t *) log_entry)->entryID.idUnit = 0;
+}
+
 void *
 SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 {
@@ -180,6 +190,7 @@ SPHLFLoggerAllocRaw (SPHLFLogger_t log, block_size_t alloc_size)
 
       if (log_entry + alloc_round > headerBlock->end_log_buf)
 	{
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 	  log_entry = 0;
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocRaw(%p, %ld) alloc failed\n",
@@ -257,6 +268,7 @@ SPHLFLoggerAllocTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf ("SPHLFLoggerAllocTimeStamped(%p, %ld) alloc failed\n",
 		      log, alloc_size);
@@ -388,6 +400,7 @@ SPHLFLoggerAllocStrideTimeStamped (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStamped(%p, %ld) alloc failed opt=%x\n",
@@ -516,6 +529,7 @@ SPHLFLoggerAllocTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocTimeStampedNoLock(%p, %ld) alloc failed\n", log,
@@ -596,6 +610,7 @@ SPHLFLoggerAllocStrideTimeStampedNoLock (SPHLFLogger_t log,
       else
 	{
 	  handlespace = NULL;
+	  SPHLFLoggerMarkEnd (headerBlock, log_entry);
 #ifdef __SASDebugPrint__
 	  sas_printf
 	    ("SPHLFLoggerAllocStrideTimeStampedNoLock(%p, %ld) alloc failed opt=%x\n",
-- 
2.43.0


From 316765086475b1c629fc35261ac07f48bb2a929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 13/44] fix: log iterator returned stale data at the allocation
 cursor forever when its length field is zero

---
 src/sphlflogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlflogger.cpp b/src/sphlflogger.cpp
index eaaa438..977f925 100644
--- a/src/sphlflogger.cpp
+++ b/src/sphlflogger.cpp
@@ -740,7 +740,7 @@ SPHLFLoggerIteratorNext (SPHLFLogIterator_t * iterator,
 	    }
 	  else
 	    {
-	      if (lPtr <= iterator->free)
+	      if ((prev < iterator->free) && (lPtr <= iterator->free))
 		{
 		  iterator->current = lPtr;
 		  handle = handleorg;
-- 
2.43.0


From ae09b0bf170dd37dc864d2344b1efa8dc242d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 14/44] fix: queue entry stride was not rounded to the 16 byte
 allocation unit

---
 src/sphmultipcqueue.cpp  | 2 +-
 src/sphsinglepcqueue.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index f353c9f..b486fa2 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -99,7 +99,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	debug_printf("%s(%p, %ld, %d) sizeof(header)=%zu round=%ld\n",__FUNCTION__,buf_seg, buf_size, stride, sizeof (SPHMPMCQHeader), round);
 	if (stride != NODEFAULT_ENTRY_STRIDE) {
 		/* insure stride keep minimal alignment */
-		stride = (stride + round) & ~round;
+		stride = (stride + round - 1) & ~(round - 1);
 		/* round buf_size to be an integral number of strides */
 		buf_size = buf_size - DEFAULT_PAGE;
 		buf_size = buf_size / stride;
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 8e2a3c1..7c6dec9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -102,7 +102,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   if (stride != NODEFAULT_ENTRY_STRIDE)
     {
       /* insure stride keep minimal alignment */
-      stride = (stride + round) & ~round;
+      stride = (stride + round - 1) & ~(round - 1);
       /* round buf_size to be an integral number of strides */
       buf_size = buf_size - DEFAULT_PAGE;
       buf_size = buf_size / stride;
-- 
2.43.0


From d8afb33bb5a00fdd9ca61957ec443874ab95ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 15/44] fix: queue calls reported success for a block that is
 not a queue

---
 src/sphsinglepcqueue.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index 7c6dec9..d206f2c 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -954,10 +954,11 @@ SPHSinglePCQueueAllocStrideEntry (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideEntry(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1031,10 +1032,11 @@ SPHSinglePCQueueAllocStrideTimeStamped (SPHSinglePCQueue_t queue,
 	     queue, alloc_round, headerBlock->options);
 #endif
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
@@ -1116,10 +1118,11 @@ SPHSinglePCQueueGetNextComplete (SPHSinglePCQueue_t queue,
 	{
 	  handlespace = NULL;
 	}
-#ifdef __SASDebugPrint__
     }
   else
     {
+      handlespace = NULL;
+#ifdef __SASDebugPrint__
       sas_printf
 	("SPHSinglePCQueueAllocStrideTimeStamped(%p, %ld) type check failed\n",
 	 queue, alloc_round);
-- 
2.43.0


From 1943d22c83a385dc667867f905eec47a826b08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 16/44] fix: setting the queue's cache prefetch cleared its
 other options

---
 src/sphsinglepcqueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index d206f2c..c6b4d1a 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -1201,7 +1201,7 @@ SPHSinglePCQueueSetCachePrefetch (SPHSinglePCQueue_t queue, int prefetch)
 	    prefetch_opt = SPHSPCQUEUE_CACHE_PREFETCH0;
 	}
 
-      temp = sas_fetch_and_and (&headerBlock->options, temp);
+      temp = sas_fetch_and_and (&headerBlock->options, ~temp);
       temp = sas_fetch_and_or (&headerBlock->options, prefetch_opt);
     }
   else
-- 
2.43.0


From 0011b06d936bfa4cfbe75a15895d4ef168d80451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 17/44] fix: the number of queue entries of an unstrided queue
 divided by zero

---
 src/sphmultipcqueue.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index b486fa2..92f70b7 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -206,7 +206,17 @@ SPHMPMCQGetEntries (SPHMPMCQ_t queue)
 {
 	SPHMPMCQHeader *headerBlock = (SPHMPMCQHeader *) queue;
 	debug_printf("%-6d: %s NEW\n",sphdeGetTID(),__FUNCTION__);
-	return (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
+	int rc = 0;
+
+	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,
+	                                  SAS_RUNTIME_PCQUEUE_TM)) {
+		if (headerBlock->default_entry_stride != NODEFAULT_ENTRY_STRIDE)
+			rc = (headerBlock->endq - headerBlock->startq) / headerBlock->default_entry_stride;
+	} else {
+		rc = -1;
+		debug_printf ("SPHMPMCQGetEntries(%p) type check failed\n", queue);
+	}
+	return rc;
 }
 
 int
-- 
2.43.0


From fa859f25511bb543aef06c830ae4ab23d5720532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 18/44] fix: queues in reused memory, and reset queues, refused
 allocations forever

---
 src/sphmultipcqueue.cpp  | 15 +++++++++++++++
 src/sphsinglepcqueue.cpp | 17 +++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 92f70b7..4065590 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -71,6 +71,19 @@ typedef struct SPHMPMCQHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark all entries of a strided queue as free.  */
+static void
+SPHMPMCQFreeAllEntries (SPHMPMCQHeader *headerBlock)
+{
+	unsigned short stride = headerBlock->default_entry_stride;
+
+	if (stride != NODEFAULT_ENTRY_STRIDE) {
+		for (longPtr_t entry = headerBlock->startq;
+		     entry < headerBlock->endq; entry += stride)
+			((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+	}
+}
+
 static SPHMPMCQ_t
 SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 		      block_size_t buf_size,
@@ -125,6 +138,7 @@ SPHMPMCQInitInternal (void *buf_seg, sas_type_t sasType,
 	heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
 	heapBlock->options = options;
 	heapBlock->default_entry_stride = stride;
+	SPHMPMCQFreeAllEntries (heapBlock);
 
 	remaining = DEFAULT_PAGE - sizeof (SPHMPMCQHeader);
 	heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -228,6 +242,7 @@ SPHMPMCQResetAsync (SPHMPMCQ_t queue)
 
 	if (SOMSASCheckBlockSigAndType ((SASBlockHeader *) headerBlock,SAS_RUNTIME_PCQUEUE_TM)) {
 		sas_read_barrier ();
+		SPHMPMCQFreeAllEntries (headerBlock);
 		headerBlock->qhead = headerBlock->startq;
 		headerBlock->qtail = headerBlock->startq;
 	} else {
diff --git a/src/sphsinglepcqueue.cpp b/src/sphsinglepcqueue.cpp
index c6b4d1a..f74b5e9 100644
--- a/src/sphsinglepcqueue.cpp
+++ b/src/sphsinglepcqueue.cpp
@@ -79,6 +79,21 @@ typedef struct SPHPCQueueHeader
 #define NODEFAULT_ENTRY_STRIDE (0)
 #define NODEFAULT_LOG_OPTIONS (0)
 
+/* Mark all entries of a strided queue as free.  */
+static void
+SPHSinglePCQueueFreeAllEntries (SPHPCQueueHeader *headerBlock)
+{
+  unsigned short stride = headerBlock->default_entry_stride;
+  longPtr_t entry;
+
+  if (stride != NODEFAULT_ENTRY_STRIDE)
+    {
+      for (entry = headerBlock->startq; entry < headerBlock->endq;
+	   entry += stride)
+	((SPHLFEntryHeader_t *) entry)->entryID.idUnit = 0;
+    }
+}
+
 SPHSinglePCQueue_t
 SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
 			      block_size_t buf_size,
@@ -133,6 +148,7 @@ SPHSinglePCQueueInitInternal (void *buf_seg, sas_type_t sasType,
   heapBlock->align_mask = (longPtr_t) DEFAULT_ALIGN_MASK;
   heapBlock->options = options;
   heapBlock->default_entry_stride = stride;
+  SPHSinglePCQueueFreeAllEntries (heapBlock);
 
   remaining = DEFAULT_PAGE - sizeof (SPHPCQueueHeader);
   heapBlock->headerFreeSpace = (freeNode *) & heapBlock[1];
@@ -231,6 +247,7 @@ SPHSinglePCQueueResetAsync (SPHSinglePCQueue_t queue)
 				  SAS_RUNTIME_PCQUEUE))
 	{
 	  sas_read_barrier ();
+	  SPHSinglePCQueueFreeAllEntries (headerBlock);
 	  headerBlock->qhead = headerBlock->startq;
 	  headerBlock->qtail = headerBlock->startq;
 	}
-- 
2.43.0


From 5b7b56eb289c16184c3b7c0b8057599bc9f9e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 19/44] fix: first entry of a multi producer queue overlapped
 the queue's own tail index

---
 src/sphmultipcqueue.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sphmultipcqueue.cpp b/src/sphmultipcqueue.cpp
index 4065590..085fd4e 100644
--- a/src/sphmultipcqueue.cpp
+++ b/src/sphmultipcqueue.cpp
@@ -57,11 +57,8 @@ typedef struct SPHMPMCQHeader
 
 #ifdef __LP64__
 #define HEAP_OFFSET 128
-#if 1
-#define DEFAULT_PAGE 256
-#else
+/* the header, with qhead and qtail on their own cachelines, exceeds 256 bytes */
 #define DEFAULT_PAGE 384
-#endif
 #else
 #define HEAP_OFFSET 64
 #define DEFAULT_PAGE 256
-- 
2.43.0


From 080c903c6ccee39eb429412253989a275a68f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 20/44] fix: zero and near-maximum size heap allocations
 aliased free space

---
 src/freenode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/freenode.c b/src/freenode.c
index 3a433ff..2061c69 100644
--- a/src/freenode.c
+++ b/src/freenode.c
@@ -117,6 +117,8 @@ void freeNode_deallocSpace (FreeNode *freeNode, FreeNode **head, node_size_t siz
    node_size_t nSize;
 
    nSize = (node_size_t)((size + nodeRound ) / nodeAlign ) * nodeAlign ;
+   if (nSize == 0) // allocated as one node
+      nSize = nodeAlign;
 
    if (h != NULL) {
       if ((unsigned long)freeNode < (unsigned long)temp) {
@@ -172,6 +174,10 @@ FreeNode* freeNode_allocSpace(FreeNode *freeNode, FreeNode **head, node_size_t s
    FreeNode *h = *head;
    node_size_t nSize;
    nSize = (node_size_t)((size+nodeRound)/nodeAlign)*nodeAlign;
+   if (nSize < size) // rounding up overflowed
+      return NULL;
+   if (nSize == 0) // every allocation has a node of its own
+      nSize = nodeAlign;
 
    if (h != NULL) { 
       // free list is not empty
-- 
2.43.0


From cd3ea4d17ef415722c8295f8e6aa24a7e3811a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 21/44] fix: rejected simple heap free overwrote the storage it
 was given

---
 src/sassimpleheap.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index 568b25e..b3b3559 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -115,14 +115,15 @@ SASSimpleHeapFreeNoLock (SASSimpleHeap_t heap,
     freeNode		*free_node = (freeNode*)free_block;
     int rc;
 
-    freeNode_init(free_node, alloc_size);
-    
     if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
     {
 		heapSize = headerBlock->blockSize - heap_offset;
 		if (( alloc_size < heapSize )
-		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) ) )
+		&& ( (unsigned long)free_block >= ((unsigned long)headerBlock + heap_offset) )
+		&& ( (unsigned long)free_block - (unsigned long)headerBlock
+		     <= headerBlock->blockSize - alloc_size ) )
 		{
+		    freeNode_init(free_node, alloc_size);
 		    freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 		    rc = 0;
 		} else {
-- 
2.43.0


From fd4f210b32721d5b036336a32ac43642dea9e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 22/44] fix: rejected near free of a simple heap overwrote the
 object

---
 src/sassimpleheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sassimpleheap.cpp b/src/sassimpleheap.cpp
index b3b3559..0d4888a 100644
--- a/src/sassimpleheap.cpp
+++ b/src/sassimpleheap.cpp
@@ -250,11 +250,11 @@ SASSimpleHeapNearDeallocNoLock(void *nearObj, block_size_t alloc_size)
     {
 	if ( SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE) )
 	{
-	    freeNode_init(free_node, alloc_size);
 	    heapSize = headerBlock->blockSize - heap_offset;
 	    if (( alloc_size < heapSize )
 	    && ((unsigned long)nearObj >= ((unsigned long)headerBlock + heap_offset)))
 	    {
+		freeNode_init(free_node, alloc_size);
 		freeNode_deallocSpace(free_node, &headerBlock->blockFreeSpace, alloc_size);
 #ifdef __SASDebugPrint__
 	    } else {
-- 
2.43.0


From c95769812c7b7ce69fc46c9081ac39b68569f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 23/44] fix: header search skipped block sizes (2k, 8k, 32k,
 128k, 256k, 512k, ...)

---
 src/sasalloc.cpp | 92 +++++-------------------------------------------
 1 file changed, 9 insertions(+), 83 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index d4e9bdb..ac0a95c 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -460,91 +460,17 @@ SASBlockHeader *SASFindHeader (const void *nearObj)
          ((temp >= __SAS_TEMP_ADDRESS) && (temp < (__SAS_TEMP_FREE)))) {
 #endif
 #endif
-	temp = temp & block__mask512;
-	block = (SASBlockHeader *)temp;
-
-#ifdef __SASDebugPrint__
-   sas_printf("SASFindHeader mask=%lx -> %p \n",block__mask512, block);
-#endif
-	if ( !SOMSASCheckBlockSig(block) )
+	/* blocks are any power of 2 in size, with matching alignment */
+	uintptr_t	size;
+	for ( size = block__align512; size <= block__align256m; size <<= 1 )
 	{
-	    temp = temp & block__mask1k;
-	    block = (SASBlockHeader *)temp;
-
-	    if ( !SOMSASCheckBlockSig(block) )
-	    {
-		temp = temp & block__mask4k;
-		block = (SASBlockHeader *)temp;
-
-		if ( !SOMSASCheckBlockSig(block) )
-		{
-#ifdef block__mask16k
-		  temp = temp & block__mask16k;
-		  block = (SASBlockHeader *)temp;
-
-		  if ( !SOMSASCheckBlockSig(block) )
-		  {
-#endif
-		    temp = temp & block__mask64k;
-		    block = (SASBlockHeader *)temp;
-
-		    if ( !SOMSASCheckBlockSig(block) )
-		    {
-#ifdef block__mask256k
-		      temp = temp & block__mask256;
-		      block = (SASBlockHeader *)temp;
-
-		      if ( !SOMSASCheckBlockSig(block) )
-		      {
-#endif
-			temp = temp & block__mask1m;
-			block = (SASBlockHeader *)temp;
-
-			if ( !SOMSASCheckBlockSig(block) )
-			{
-			    temp = temp & block__mask4m;
-			    block = (SASBlockHeader *)temp;
-
-			    if ( !SOMSASCheckBlockSig(block) )
-			    {
-				temp = temp & block__mask16m;
-				block = (SASBlockHeader *)temp;
-
-				if ( !SOMSASCheckBlockSig(block) )
-				{
-#ifdef block__mask64m
-				  temp = temp & block__mask64m;
-				  block = (SASBlockHeader *)temp;
-
-				  if ( !SOMSASCheckBlockSig(block) )
-				  {
-#ifdef block__mask256m
-				    temp = temp & block__mask256m;
-				    block = (SASBlockHeader *)temp;
-
-				    if ( !SOMSASCheckBlockSig(block) )
-				    {
-				      block = NULL;
-				    }
-#else
-				    block = NULL;
-#endif
-				  }
-#else
-				    block = NULL;
-#endif
-				}
-			    }
-			}
-#ifdef block__mask256k
-		      }
-#endif
-		    }
-#ifdef block__mask16k
-		  }
+	    block = (SASBlockHeader *)(temp & ~(size - 1));
+#ifdef __SASDebugPrint__
+	    sas_printf("SASFindHeader size=%lx -> %p \n", size, block);
 #endif
-		}
-	   }
+	    if ( SOMSASCheckBlockSig(block) )
+		break;
+	    block = NULL;
 	}
 #ifdef __SASDebugPrint__
 	    sas_printf("SASFindHeader low=%lx, high=%lx, tmp_low=%lx, tmp_hign=%lx\n",
-- 
2.43.0


From 8bfb5883641c754b9d8729d1cdef10dcecdb9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 24/44] fix: block allocation crashed when out of space and
 left the last word of a new block unzeroed

---
 src/sasalloc.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sasalloc.cpp b/src/sasalloc.cpp
index ac0a95c..a90eada 100644
--- a/src/sasalloc.cpp
+++ b/src/sasalloc.cpp
@@ -320,10 +320,13 @@ void* SASSOMAlloc (long blockSize, long /*allocSize*/)
     long	*first	= (long *)temp;
     long	*last	= &first[(blockSize / sizeof(long)) - 1];
     // initialize block to zeros
-    for ( ; first != last; )
+    if (temp)
     {
-	*first++ = 0L;
-    };
+	for ( ; first <= last; )
+	{
+	    *first++ = 0L;
+	};
+    }
 //#endif
 #endif
 
-- 
2.43.0


From 1383bf22ff6d3b15d3e56f0aef73e7feea0ab583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 25/44] fix: setting a block's subtype replaced its whole type
 by 1

---
 src/sasalloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sasalloc.h b/src/sasalloc.h
index 973e62c..ac0e3c5 100644
--- a/src/sasalloc.h
+++ b/src/sasalloc.h
@@ -158,7 +158,7 @@ SOMSASSetBlockSubType (SASBlockHeader* header,
                                                            sas_type_t sasType)
 {
     header->blockType = (header->blockType &  ~SAS_SUB_TYPE_MASK)
-                 || (sasType & SAS_SUB_TYPE_MASK);
+                 | (sasType & SAS_SUB_TYPE_MASK);
 }
 
 static inline sas_type_t
-- 
2.43.0


From c4b7ddbe785d244fd89182d0064e0294dce7b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 26/44] fix: creating a simple space of near-maximum size
 looped forever

---
 src/sassimplespace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sassimplespace.cpp b/src/sassimplespace.cpp
index 0036a6c..ba1768b 100644
--- a/src/sassimplespace.cpp
+++ b/src/sassimplespace.cpp
@@ -95,6 +95,10 @@ SASSimpleSpaceCreate (block_size_t space_size)
     block_size_t	min_size = (space_size + DEFAULT_PAGE);
     block_size_t	p2_size = (DEFAULT_PAGE + DEFAULT_PAGE);
 
+    /* larger than any block: rounding up would overflow */
+    if (space_size > (~(block_size_t) 0 >> 3))
+	return NULL;
+
     while (min_size > p2_size)
 	p2_size = p2_size + p2_size;
     
-- 
2.43.0


From 0cef08e9a0020b1d02fc1f61e7ce5b91f607459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 27/44] fix: simple stack allocation near the maximum size
 wrapped around

---
 src/sassimplestack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 0ac1235..03af8b6 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -111,7 +111,8 @@ SASSimpleStackAllocNoLock (SASSimpleStack_t heap, block_size_t alloc_size)
       round = ~headerBlock->align_mask;
       stacknext = (headerBlock->next_stack + alloc_size + round)
 	& headerBlock->align_mask;
-      if (stacknext <= headerBlock->end_stack)
+      if ((alloc_size <= headerBlock->end_stack - headerBlock->next_stack)
+	  && (stacknext <= headerBlock->end_stack))
 	{
 	  stack_alloc = headerBlock->next_stack;
 	  headerBlock->next_stack = stacknext;
-- 
2.43.0


From bae3a5a98545c1b3041fc00459c72e9905eaba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 28/44] fix: unlocked simple stack pop accepted unaligned
 positions

---
 src/sassimplestack.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sassimplestack.cpp b/src/sassimplestack.cpp
index 03af8b6..2a7f773 100644
--- a/src/sassimplestack.cpp
+++ b/src/sassimplestack.cpp
@@ -261,8 +261,14 @@ SASSimpleStackDeallocNoLock (SASSimpleStack_t heap, void *stack_pointer)
       if ((new_sp >= headerBlock->start_stack)
 	  && (new_sp <= headerBlock->end_stack))
 	{
-	  headerBlock->next_stack = new_sp;
-	  rc = 0;
+	  new_sp &= headerBlock->align_mask;
+	  if (new_sp == (node_size_t) stack_pointer)
+	    {
+	      headerBlock->next_stack = new_sp;
+	      rc = 0;
+	    }
+	  else
+	    rc = -3;
 	}
       else
 	{
-- 
2.43.0


From 0b95759c7ac022f15114a898da3168d6bf22ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 29/44] fix: allocating from a fragmented unit vector without a
 fitting range looped forever

---
 src/bitv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 7472138..af2bd39 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -114,6 +114,8 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 	  else
 	    {
 	      req_msk >>= 1;
+	      if (i == (int) (bits_per_long - alloc_units))
+		cur_msk = 0UL;
 	    }
 	}
     }
@@ -282,8 +284,9 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 	    }
 	  else
 	    {
-	      req_msk >>= align_units;
-	      if (req_msk == 0UL)
+	      if (i + align_units <= (bits_per_long - alloc_units))
+		req_msk >>= align_units;
+	      else
 		cur_msk = 0UL;
 	    }
 	}
@@ -382,7 +385,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 	    }
 	  else
 	    {
-	      if (i < (bits_per_long - alloc_units))
+	      if (i + align_units <= (bits_per_long - alloc_units))
 		req_msk >>= align_units;
 	      else
 		cur_msk = 0UL;
-- 
2.43.0


From 40bd02897a611a780c20ca7f33eff5e4ba4be773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 30/44] fix: offsets of allocations in large units overflowed
 an int

---
 src/bitv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index af2bd39..4fac764 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -95,7 +95,7 @@ bitv_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size)
 #ifdef PRINT_DEBUG
 		  printf ("i=%ld, req_msk=%lx\n", i, req_msk);
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -179,7 +179,7 @@ bitv_alloc_marked (bitv_cb_t * cb, bitv_word * bvec, bitv_word * endvec,
 			"with unit vector free space\n");
 		    }
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -266,7 +266,7 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 #ifdef PRINT_DEBUG
 		  printf ("i=%ld, req_msk=%lx\n", i, req_msk);
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
@@ -367,7 +367,7 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 			("bitv_alloc_marked: error prior end-mark inconsistent with unit vector free space\n");
 		    }
 #endif
-		  result = i << cb->alloc_shift;
+		  result = (ssize_t) i << cb->alloc_shift;
 		  cur_msk = 0UL;
 		}
 	      else
-- 
2.43.0


From 450c72a79e531df2c80f9b345589f5f90aa4031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 31/44] fix: alignments below half an allocation unit were
 refused

---
 src/bitv.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/bitv.c b/src/bitv.c
index 4fac764..fa18476 100644
--- a/src/bitv.c
+++ b/src/bitv.c
@@ -226,18 +226,17 @@ bitv_aligned_alloc (bitv_cb_t * cb, bitv_word * bvec, size_t size,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
       printf ("bitv_aligned_alloc(%p,%lx,%ld,%ld)\n", cb, *bvec, size, align);
       printf
-	("alloc_units=%ld, align_units=%ld, align_shift=%ld, req_msk=%lx, cur_msk=%lx\n",
-	 alloc_units, align_units, align_shift, req_msk0, cur_msk);
+	("alloc_units=%ld, align_units=%ld, req_msk=%lx, cur_msk=%lx\n",
+	 alloc_units, align_units, req_msk0, cur_msk);
 #endif
       return -1;
     }
@@ -311,18 +310,17 @@ bitv_aligned_alloc_marked (bitv_cb_t * cb, bitv_word * bvec,
 */
   ssize_t result = -1;
   size_t alloc_units = bitv_round_unit (cb, size);
-  size_t align_shift = __builtin_ffsl (align >> cb->alloc_shift);
   size_t align_units = bitv_round_unit (cb, align);
   bitv_word req_msk0 = bitv_size_to_mask (cb, size);
   bitv_word cur_msk = *bvec;
-  if (align != (1 << (align_shift + cb->alloc_shift - 1)))
+  if (!bitv_popcountl_one (align))
     {
 #ifdef PRINT_DEBUG
       printf ("error align value must be a power of 2\n");
       printf ("bitv_aligned_alloc(%p,%lx,%ld,%ld)\n", cb, *bvec, size, align);
       printf
-	("alloc_units=%ld, align_units=%ld, align_shift=%ld, req_msk=%lx, cur_msk=%lx\n",
-	 alloc_units, align_units, align_shift, req_msk0, cur_msk);
+	("alloc_units=%ld, align_units=%ld, req_msk=%lx, cur_msk=%lx\n",
+	 alloc_units, align_units, req_msk0, cur_msk);
 #endif
       return -1;
     }
-- 
2.43.0


From 4906b7132f5218cf47e4889885a11ab39ddfc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 32/44] fix: request limit of lock free heaps with large units
 overflowed an int

---
 src/sphlockfreeheap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 43b7cf6..518fd3c 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -180,7 +180,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #if 0
       maxAlloc = bits_per_long << (unit_shift - 1);
 #else
-      maxAlloc = MAX_UNITS << unit_shift;
+      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 #endif
       if (alloc_size < maxAlloc)
 	{
@@ -259,7 +259,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = bits_per_long << (unit_shift - 1);
       maxAlign = bits_per_long << (unit_shift);
 #else
-      maxAlloc = MAX_UNITS << unit_shift;
+      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
       if ((alloc_size < maxAlloc)
@@ -381,7 +381,7 @@ SPHLockFreeHeapFreeInNoLock (SPHLockFreeHeap_t heap,
 
 	  if (alloc_size > 0)
 	    {			/* only perform this check if alloc_size non-zero */
-	      maxAlloc = MAX_UNITS << unit_shift;
+	      maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 
 	      allocated = bitv_allocated_size_chk (&heapHdr->bitv_cb,
 						   &heapHdr->
@@ -647,7 +647,7 @@ SPHLockFreeHeapNearAllocNoLock (void *nearObj, block_size_t alloc_size)
 #if 0
 	  maxAlloc = bits_per_long << (unit_shift - 1);
 #else
-	  maxAlloc = MAX_UNITS << unit_shift;
+	  maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 #endif
 	  if (alloc_size < maxAlloc)
 	    {
-- 
2.43.0


From 88239da28262e52dc4c9e2765955a628a3cd60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 33/44] fix: zero size allocation took a whole word of units of
 a lock free heap

---
 src/sphlockfreeheap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 518fd3c..47e3027 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -182,7 +182,7 @@ SPHLockFreeHeapAllocNoLock (SPHLockFreeHeap_t heap, size_t alloc_size)
 #else
       maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
 #endif
-      if (alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc))
 	{
 	  ssize_t offset = -1;
 	  long cnt = heapHdr->vec_cnt;
@@ -262,7 +262,7 @@ SPHLockFreeHeapAlignAllocNoLock (SPHLockFreeHeap_t heap,
       maxAlloc = (block_size_t) MAX_UNITS << unit_shift;
       maxAlign = bits_per_long << (unit_shift);
 #endif
-      if ((alloc_size < maxAlloc)
+      if ((alloc_size > 0) && (alloc_size < maxAlloc)
 	  && bitv_popcountl_one (alignment) && (alignment <= (maxAlign)))
 	{
 	  ssize_t offset = -1;
-- 
2.43.0


From ff2255de99aaa06c4e499a36d27ef0dda83f5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 34/44] fix: finding the lock free heap of an object always
 failed

---
 src/sphlockfreeheap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlockfreeheap.cpp b/src/sphlockfreeheap.cpp
index 47e3027..b7e46d4 100644
--- a/src/sphlockfreeheap.cpp
+++ b/src/sphlockfreeheap.cpp
@@ -599,7 +599,7 @@ SPHLockFreeHeapNearFind (void *nearObj)
   headerBlock = (SASBlockHeader *) SASFindHeader (nearObj);
   if (headerBlock)
     {
-      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_SIMPLEHEAP_TYPE))
+      if (SOMSASCheckBlockSigAndType (headerBlock, SAS_RUNTIME_LOCKFREEHEAP))
 	{
 	  result = (SPHLockFreeHeap_t) headerBlock;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 0c135b9c9b6c8d1e10401d3a0d7a8fc99eba82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 35/44] fix: adding a logger to a full log portal counted a
 logger that is not there

---
 src/sphlogportal.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 1eec5cb..33e2a18 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -185,7 +185,11 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 		if (SOMSASCheckBlockSigAndType (logBlock,
 				SAS_RUNTIME_LOCKFREELOGGER) )
 		{
-			index = __sync_fetch_and_add (&headerBlock->next_free, 1);
+			do {
+				index = headerBlock->next_free;
+			} while (index < headerBlock->list_size
+				 && !__sync_bool_compare_and_swap (
+					&headerBlock->next_free, index, index + 1));
 			if (index < headerBlock->list_size)
 			{
 				/* Insert the Logger in the Portal list */
@@ -202,9 +206,6 @@ SPHLogPortalAddLogger (SPHLogPortal_t portal, SPHLFLogger_t log)
 				}
 
 				rc = log;
-			} else {
-				if (index > headerBlock->list_size)
-					index = __sync_fetch_and_add (&headerBlock->next_free, -1);
 			}
 	#ifdef __SASDebugPrint__
 		} else {
-- 
2.43.0


From 09b4ceeff08678fa599b77bac8d03e2df90b5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 36/44] fix: number of loggers of a full log portal was
 reported as an error

---
 src/sphlogportal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index 33e2a18..f0eb35a 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -343,7 +343,7 @@ SPHLogPortalEntries (SPHLogPortal_t portal)
 			SAS_RUNTIME_LOGPORTAL) )
 	{
 		sas_read_barrier();
-		if ( headerBlock->next_free < headerBlock->list_size )
+		if ( headerBlock->next_free <= headerBlock->list_size )
 		{
 			rc = headerBlock->next_free;
 #ifdef __SASDebugPrint__
-- 
2.43.0


From 8fbab124312788e1cbef1eb8f07f488c8ca6e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 37/44] fix: log portal iterators read unused list slots behind
 the last logger

---
 src/sphlogportal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sphlogportal.cpp b/src/sphlogportal.cpp
index f0eb35a..cf92470 100644
--- a/src/sphlogportal.cpp
+++ b/src/sphlogportal.cpp
@@ -396,7 +396,8 @@ SPHLFPortalCreateIterator(SPHLogPortal_t portal,
     		SAS_RUNTIME_LOGPORTAL) )
     {
     	SPHLFLogIterator_t *l_iter = NULL;
-    	log = headerBlock->log_buff_list[0];
+    	log = (headerBlock->next_free > 0)
+    	      ? headerBlock->log_buff_list[0] : NULL;
 #ifdef __SASDebugPrint__
     	sas_printf("SPHLFPortalCreateIterator(%p, %p) log[0]= %p\n",
     			portal, Iterator_space, log);
@@ -448,7 +449,7 @@ SPHLFPortalIteratorNext (SPHLFPortalIterator_t *iterator,
     			longPtr_t cur = iterator->current;
     			longPtr_t nxt = cur + 1;
     			log0 = headerBlock->log_buff_list[cur];
-    			if (log0 && (nxt <= iterator->next_free)
+    			if (log0 && (nxt < headerBlock->next_free)
     			&& (nxt < iterator->capacity))
     			{   /* nxt is within the allocated list.  */
     				log = headerBlock->log_buff_list[nxt];
-- 
2.43.0


From e56b8e75ea54796dd10619665986140fba700e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 38/44] fix: uLongTreeNode::insertNode returns NULL when no
 storage is left near the tree

---
 src/ultree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ultree.cpp b/src/ultree.cpp
index 5576e79..f2ce488 100644
--- a/src/ultree.cpp
+++ b/src/ultree.cpp
@@ -339,6 +339,8 @@ uLongTreeNode
     sas_printf("uLongTreeNode::insertNode\n");
 #endif
     uLongTreeNode *n = (uLongTreeNode *)SASNearAlloc(root, sizeof(uLongTreeNode));
+    if (n == NULL)
+	return NULL;
     n->init(k, i);
 
     p = *root;
-- 
2.43.0


From cb322ebff6553143ad53d761b3fdef05b7aa20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 39/44] fix: splitting free space above 4 GB truncated the
 offsets of the remaining halves

---
 src/sassim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index dd802c4..ec3e239 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -415,8 +415,9 @@ p2Alloc (uLongTreeNode ** root, unsigned long size)
   unsigned long k, l, m;
   unsigned long keys;
   unsigned long result = 0;
+  unsigned long ui;
   unsigned int j;
-  unsigned int ui, uj;
+  unsigned int uj;
 
 #ifdef __SASDebugPrint__
   sas_printf ("p2Alloc (%p, %lu)\n", root, size);
-- 
2.43.0


From dab26130226045de6b35b5f45b9a020576facce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 40/44] fix: a failed segment creation lost the segment's piece
 of the region

---
 src/sassim.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index ec3e239..159d13a 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1159,6 +1159,8 @@ SASBlockAllocNoLock (unsigned long blockSize)
 	      else
 		{
 		  sas_printf ("SASBlockAlloc attach failed %lx\n", blockSize);
+		  /* give the unused piece back to the region */
+		  p2Dealloc (nn, SegmentSize, segAddr);
 		}
 	    }
 	  else
-- 
2.43.0


From 87cdd07add28371f96afb9cb448bcc5db62b15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 41/44] fix: region lists and depths read the tree root before
 taking the region lock

---
 src/sassim.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 159d13a..56472b3 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -1492,10 +1492,11 @@ SASListFreeRegion (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.region;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.region;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1519,10 +1520,11 @@ SASListAllocatedRegion (void **blockAddr,
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1544,10 +1546,11 @@ int
 SASMaxDepthAllocatedRegion (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.allocated;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.allocated;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1561,10 +1564,11 @@ int
 SASMaxDepthUseMem (void)
 {
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   int maxd = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   if (u != NULL)
     {
       maxd = u->maxNodeDepth ();
@@ -1580,10 +1584,11 @@ SASListInUseMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.used;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.used;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1606,10 +1611,11 @@ SASListUncommittedMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.uncommitted;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.uncommitted;
   do
     {
       n = u->searchNextNode (u, keys);
@@ -1632,10 +1638,11 @@ SASListFreeMem (void **blockAddr, unsigned long *blockSize, int *count)
   int cnt = 0;
   SASAnchorBlock_t *anchor = (SASAnchorBlock_t *) memLow;
   uLongTreeNode *n;
-  uLongTreeNode *u = anchor->anchors.free;
+  uLongTreeNode *u;
   unsigned long keys = 0;
 
   SASSeize ();
+  u = anchor->anchors.free;
   do
     {
       n = u->searchNextNode (u, keys);
-- 
2.43.0


From f6c7dabdf3851c21962a1a596e9740c331714936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 42/44] fix: an interrupted wait for the region lock went on
 without the lock

---
 src/sassim.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sassim.cpp b/src/sassim.cpp
index 56472b3..0d66bb3 100644
--- a/src/sassim.cpp
+++ b/src/sassim.cpp
@@ -656,7 +656,9 @@ seizeSASSem (SASAnchor_t * anchor)
 {
   int rc;
 #ifdef __GNUC__
-  rc = sem_wait (&anchor->SASSem);
+  do
+    rc = sem_wait (&anchor->SASSem);
+  while (rc != 0 && errno == EINTR);
   if (rc != 0)
     sas_printf ("seizeSASSem: sem_wait failed: %s\n", strerror (errno));
 #else
-- 
2.43.0


From 0d665ea622d2a2671aba75f4ebdea861405f08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 43/44] fix: a lock object could change its address while
 threads waited for it

Two threads could then hold the lock of one address at the same time.
---
 src/sasulock.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index df4c0eb..5658358 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -190,6 +190,9 @@ SasUserLock::read_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // So, if lockObj == NULL, that implies the user did not pass in
 // a lock object for their SasLockList and therefore, do not need us
 // to unlock it.
+  // Name the locked address first: once the list is unlocked, others must
+  // find this object by its address or see that it is not free.
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -378,6 +381,9 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
 // to unlock another lock object.  If the caller did not
 // specify a lock object, then by default, lockObj is set = NULL,
 // so there's nothing to do.
+  // Name the locked address first: once the list is unlocked, others must
+  // find this object by its address or see that it is not free.
+  address = lockAddr;
   if (lockObj != NULL)
       lockObj->unlock();
 
@@ -509,7 +515,9 @@ SasUserLock::unlock(void)
     total_readers_count--;
 // Zero-out the address datamember to indicate the lock object
 // is available for use.
-    if (total_readers_count==0)
+// Threads waiting for this address keep it.
+    if ((total_readers_count==0) && (status != SasUserLock__exclusive) &&
+        !readers_waiting && !writers_waiting)
 	address = NullAddress;
 
 #ifdef coherenceCheck
@@ -586,7 +594,9 @@ SasUserLock::unlock(void)
       }
       // Zero-out the address datamember to indicate the lock object
       // is available for use.
-      address = NullAddress;
+      // Threads waiting for this address keep it.
+      if (!readers_waiting && !writers_waiting)
+        address = NullAddress;
 
       writer_thread_id = 0;
       writer_task_id = 0;
-- 
2.43.0


From 3f505a6965b381594e362eac9c20940da12385c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 44/44] fix: a writer waiting for its turn could take the
 wakeup meant for the writer waiting for the readers

Both then slept for ever.
---
 src/sasulock.cpp | 16 ++++++++++++++--
 src/sasulock.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sasulock.cpp b/src/sasulock.cpp
index 5658358..dc69080 100644
--- a/src/sasulock.cpp
+++ b/src/sasulock.cpp
@@ -65,6 +65,7 @@ SasUserLock::SasUserLock(vm_address_t addrToLock)
   sem_init(&readers_waiting_sem, 1, MAX_READER_THREADS);
   writers_waiting               = 0;
   sem_init(&writers_waiting_sem, 1, 1);
+  sem_init(&readers_done_sem, 1, 0);
   writer_thread_id              = 0;
   writer_task_id                = 0;
   writer_thread_lock_count      = 0;
@@ -91,6 +92,7 @@ SasUserLock::~SasUserLock(void)
   spin_lock(&data_lock);
   sem_destroy(&readers_waiting_sem);
   sem_destroy(&writers_waiting_sem);
+  sem_destroy(&readers_done_sem);
   if ((total_readers_count == 0) &&
       (readers_waiting == 0) &&
       (writers_waiting == 0))
@@ -453,8 +455,10 @@ SasUserLock::write_lock(SasUserLock * lockObj, vm_address_t lockAddr)
     // look like a writer so that the unlock code wakes us up.
     writers_waiting++;
 
+    // sleep on a semaphore of its own: a writer waiting for its turn
+    // could take the wakeup from writers_waiting_sem instead of us.
     SasUserLock::thread_sleep(	(vm_address_t)&writers_waiting,
-				&writers_waiting_sem, &data_lock);
+				&readers_done_sem, &data_lock);
 
     spin_lock(&data_lock);
     if (writers_waiting)
@@ -502,6 +506,7 @@ SasUserLock::unlock(void)
 #endif
   boolean_t	wakeup_writers = FALSE;
   boolean_t	wakeup_readers = FALSE;
+  boolean_t	readers_done = FALSE;
   // mach_thread_self() is a ukernel call so let's
   // issue it only once in this routine.  This is
   // a local automatic variable so it is also
@@ -529,7 +534,9 @@ SasUserLock::unlock(void)
         total_readers_count);
     }
 #endif
-    if ((total_readers_count==0) && (writers_waiting))
+    if ((total_readers_count==0) && (status == SasUserLock__exclusive))
+      readers_done = TRUE;
+    else if ((total_readers_count==0) && (writers_waiting))
       wakeup_writers = TRUE;
     // unlock the reader that has it
     for (int i = 0; i < MAX_READER_THREADS; i++)
@@ -632,6 +639,11 @@ SasUserLock::unlock(void)
   } // end else no readers waiting
   spin_unlock(&data_lock);
 
+  if (readers_done)
+  {
+    SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
+				&readers_done_sem, WAKE_ONE);
+  }
   if (wakeup_writers)
   {
     SasUserLock::thread_wakeup(	(vm_address_t)&writers_waiting,
diff --git a/src/sasulock.h b/src/sasulock.h
index 8389b3a..98d31b6 100644
--- a/src/sasulock.h
+++ b/src/sasulock.h
@@ -123,6 +123,7 @@ private:
   sem_t                 readers_waiting_sem;
   volatile int          writers_waiting;
   sem_t                 writers_waiting_sem;
+  sem_t                 readers_done_sem;
   pid_t                 writer_task_id;
   pid_t                 writer_thread_id;
   volatile int          writer_thread_lock_count;
-- 
2.43.0

