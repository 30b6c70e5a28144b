From b0e425848f16c8624f385f418953f02348dc43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 01/21] fix: a field fits in a chunk only if the chunk's
 (signed) size has room for it

The comparison mixed a signed size with an unsigned field size, so that a
field larger than the whole chunk, or any field of a chunk with a negative
size, was treated as fitting and read or written beyond the chunk's end.
---
 src/libiff/field.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..4b87cd7 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,8 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    /* Compare signed quantities: chunkSize can be negative or smaller than fieldSize, but it never underflows this way */
+    return chunkSize < (IFF_Long)fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 50ff2e96a1df9dcda7786821656c9e19ae0b3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 02/21] fix: fall back to the global chunk types inside a form
 with registered chunk types

A chunk that the form's own chunk types do not know was handled by the
default (raw) type, even if it is a group chunk: nested groups in an
extended form were read as raw data, and groups in a hierarchy that was
built by the application were written as if they were raw chunks.
---
 src/libiff/chunkregistry.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..4cef01b 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,13 +90,14 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
+        if(formChunkTypes != NULL)
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Fall back to the global chunk types, such as the group chunks */
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From 8386bfefdb92bd7195394e6b2a5ca597e174697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 03/21] fix: fail when the bytes to skip in a data chunk are
 not there

fseek() succeeds beyond the end of a file, so a truncated file was accepted,
and fails on pipes, so a complete file was rejected. Read and discard instead.
---
 src/libiff/io.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..8aed024 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,20 +210,27 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read and discard, because a stream may not be seekable and a seek beyond the end of a file succeeds */
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Unexpected end of file, while skipping: %d bytes in data chunk: '", bytesToSkip);
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
+
+        IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
-- 
2.43.0


From 63193e54ab3a7e53d9a1c12137ddaa383222f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 04/21] fix: report a failure to flush buffered output when
 writing a file or to standard output

---
 src/libiff/iff.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..f0dbfe2 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,14 +107,33 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    /* Buffered data is written when closing, so that may fail as well */
+    if(fclose(file) == EOF && status)
+    {
+        IFF_error("ERROR: cannot write file: %s\n", filename);
+        return FALSE;
+    }
+
     return status;
 }
 
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+    {
+        if(!IFF_writeFd(stdout, chunk, chunkRegistry))
+            return FALSE;
+
+        /* Buffered data is written when flushing, so that may fail as well */
+        if(fflush(stdout) == EOF)
+        {
+            IFF_error("ERROR: cannot write to the standard output!\n");
+            return FALSE;
+        }
+
+        return TRUE;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 8073d9184a040f44bc1b340be746604830d293b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 05/21] fix: free the intermediate results while searching for
 forms in a group

---
 src/libiff/group.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..099e539 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -261,7 +261,10 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         unsigned int resultLength;
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
-        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        if(resultLength > 0)
+            forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From bf41a18868c8f44db0329a10aea229c90fe31849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 06/21] fix: report the total amount of bytes, not a pointer,
 of a truncated group

---
 src/libiff/group.c | 2 +-
 src/libiff/list.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 099e539..4054b3e 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From aa262561385dcf2eb7bb9fce37912fb7ae8472e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:52 +0000
Subject: [PATCH 07/21] fix: free an invalid input hierarchy in iffjoin

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From be097ca1ceeb8a28e4b2e46b451c99c8daec0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:25 +0000
Subject: [PATCH 08/21] fix: reject every punctuation mark in a form type, not
 only the dot

---
 src/libiff/form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..1b2e971 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -104,7 +104,7 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if(formType2[i] != ' ' && (formType2[i] < '0' || formType2[i] > '9') && (formType2[i] < 'A' || formType2[i] > 'Z'))
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From d4b6603d74738003965ef374d2a33f95790ef2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 09/21] fix: compare the chunk sizes of shared list properties
 as well

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..0f6eab2 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From e61abaa04f2a5a4b398351c07bff6155dbd6405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 10/21] fix: accept filler chunks, which have an ID of four
 spaces

---
 src/libiff/chunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..38f70d3 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -96,7 +96,8 @@ IFF_Bool IFF_writeChunk(FILE *file, const IFF_Chunk *chunk, const IFF_ID formTyp
 
 IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF_ChunkRegistry *chunkRegistry)
 {
-    if(!IFF_checkId(chunk->chunkId))
+    /* Four spaces identify a filler chunk, which is an exception to the rule that spaces may not precede an ID */
+    if(chunk->chunkId != ID_EMPTY && !IFF_checkId(chunk->chunkId))
         return FALSE;
     else
     {
-- 
2.43.0


From b49f0d060d74a58cc52eea576c6e6518bd3b78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 11/21] fix: accept a PROP for the fake FORM type LIST

---
 src/libiff/prop.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index 87f56d2..6303002 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -61,6 +61,12 @@ IFF_Bool IFF_writeProp(FILE *file, const IFF_Chunk *chunk, const IFF_ChunkRegist
     return IFF_writeForm(file, chunk, chunkRegistry, bytesProcessed);
 }
 
+static IFF_Bool checkPropFormType(const IFF_ID formType)
+{
+    /* The properties of a list itself are stored in a PROP for the fake FORM type 'LIST' */
+    return formType == IFF_ID_LIST || IFF_checkFormType(formType);
+}
+
 static IFF_Bool subChunkCheck(const IFF_Group *group, const IFF_Chunk *subChunk)
 {
     if(subChunk->chunkId == IFF_ID_FORM ||
@@ -80,7 +86,7 @@ static IFF_Bool subChunkCheck(const IFF_Group *group, const IFF_Chunk *subChunk)
 
 IFF_Bool IFF_checkProp(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
-    return IFF_checkGroup((IFF_Group*)chunk, &IFF_checkFormType, &subChunkCheck, chunkRegistry);
+    return IFF_checkGroup((IFF_Group*)chunk, &checkPropFormType, &subChunkCheck, chunkRegistry);
 }
 
 void IFF_freeProp(IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
-- 
2.43.0


From 2c3e14e9ce80885fe74fa49a04194a5464788f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 12/21] fix: release the previous data of a raw chunk when
 setting its text

---
 src/libiff/rawchunk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..ff47001 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -62,6 +62,7 @@ void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
     memcpy(chunkData, text, textLength);
+    free(rawChunk->chunkData);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
 }
 
-- 
2.43.0


From 58a0fd15f39fbbf9245b4e23c018046cf13ab814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 13/21] fix: fail when no memory is available for writing zero
 filler bytes

---
 src/libiff/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 8aed024..6198ac4 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -239,7 +239,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-- 
2.43.0


From 1ee7e66fda15965e0120948dfd83f3345414b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 14/21] fix: fail when no memory is available for adding a
 chunk to a group

---
 src/libiff/group.c | 21 ++++++++++++++++-----
 src/libiff/group.h |  3 ++-
 src/libiff/list.c  | 26 ++++++++++++++++++++------
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 4054b3e..0e52593 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,25 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(newChunk == NULL)
+        return FALSE;
+
+    group->chunk = newChunk;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+
+    return TRUE;
 }
 
 void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
-    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    if(IFF_attachToGroup(group, chunk))
+        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +89,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..36e0e9d 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been attached, or FALSE if the memory for it can't be allocated
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 0f6eab2..cab14f4 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,18 +57,25 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(newProp == NULL)
+        return FALSE;
+
+    list->prop = newProp;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+
+    return TRUE;
 }
 
 void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
-    list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    if(addPropToList(list, prop))
+        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
 }
 
 void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
@@ -87,15 +94,22 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     {
         /* Read sub chunk */
         IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
+        IFF_Bool added;
 
         if(chunk == NULL)
             return FALSE;
 
         /* Add the PROP chunk or arbitrary sub chunk */
         if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
+            added = addPropToList(list, (IFF_Prop*)chunk);
         else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+            added = IFF_attachToGroup((IFF_Group*)list, chunk);
+
+        if(!added)
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
-- 
2.43.0


From 975cb387eb1d50989ea0cd00efa74e2a539f622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 15/21] fix: do not overflow signed integers when adding up the
 sizes of a malformed file

---
 src/libiff/group.c | 5 +++--
 src/libiff/list.c  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 0e52593..e11d5d7 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -199,7 +199,7 @@ IFF_Bool IFF_checkGroup(const IFF_Group *group, IFF_Bool (*groupTypeCheck) (cons
     if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
         return FALSE;
 
-    chunkSize += IFF_ID_SIZE;
+    chunkSize = (IFF_ULong)chunkSize + IFF_ID_SIZE;
 
     if(!IFF_checkGroupChunkSize(group, chunkSize))
         return FALSE;
@@ -283,7 +283,8 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
 
 IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk)
 {
-    IFF_Long returnValue = chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + chunk->chunkSize;
+    /* Use unsigned arithmetic, because the sizes in a malformed file may be arbitrarily large */
+    IFF_ULong returnValue = (IFF_ULong)chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + (IFF_ULong)chunk->chunkSize;
 
     /* If the size of the nested chunk size is odd, we have to count the padding byte as well */
     if(chunk->chunkSize % 2 != 0)
diff --git a/src/libiff/list.c b/src/libiff/list.c
index cab14f4..1e2c91d 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -209,13 +209,13 @@ IFF_Bool IFF_checkList(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkReg
     if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
         return FALSE;
 
-    chunkSize += subChunkSize;
+    chunkSize = (IFF_ULong)chunkSize + subChunkSize;
 
     /* Check validity of other sub chunks */
     if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
         return FALSE;
 
-    chunkSize += subChunkSize;
+    chunkSize = (IFF_ULong)chunkSize + subChunkSize;
 
     /* Check whether the calculated chunk size matches the chunks' chunk size */
     if(!IFF_checkGroupChunkSize((IFF_Group*)list, chunkSize))
-- 
2.43.0


From d9844d42f8e0147690dfef4a812eb4ea6e42dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 16/21] fix: write shared properties with the chunk type
 registered for the list

Properties of a list were read, checked, printed, compared and freed by the
chunk type registered for the list's contents type, but written by the one
registered globally.
---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 1e2c91d..4281d9c 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -147,7 +147,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
-- 
2.43.0


From b282e48b831ca3dc60bd7dd5b1f464a0ae4069e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:05 +0000
Subject: [PATCH 17/21] fix: iffpp fails when its output cannot be written
 completely

---
 src/iffpp/pp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iffpp/pp.c b/src/iffpp/pp.c
index 643d28a..0b47be1 100644
--- a/src/iffpp/pp.c
+++ b/src/iffpp/pp.c
@@ -42,7 +42,14 @@ int IFF_prettyPrint(const char *filename, const int options)
             /* Print the file */
             IFF_print(chunk, 0, NULL);
 
-            status = 0;
+            /* Check whether everything has been printed */
+            if(fflush(stdout) == 0 && !ferror(stdout))
+                status = 0;
+            else
+            {
+                fprintf(stderr, "Cannot write to the standard output!\n");
+                status = 1;
+            }
         }
         else
             status = 1;
-- 
2.43.0


From 2fc735078564e6ee59143bf2513cc98b54adc0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:54 +0000
Subject: [PATCH 18/21] fix: IFF_setTextData leaves the chunk unchanged if
 memory runs out

---
 src/libiff/rawchunk.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index ff47001..4a679e6 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -61,6 +61,12 @@ void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
+    if(chunkData == NULL && textLength > 0)
+    {
+        IFF_error("Cannot allocate memory for text data!\n");
+        return;
+    }
+
     memcpy(chunkData, text, textLength);
     free(rawChunk->chunkData);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
-- 
2.43.0


From 9843683ca018a4d7c39876e9aa4cd1849ecb83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:54 +0000
Subject: [PATCH 19/21] fix: searching forms and retrieving chunks does not
 crash if memory runs out

---
 src/libiff/form.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 1b2e971..57e747b 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -195,8 +195,15 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
 {
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
+    IFF_Form **newTarget = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
 
-    target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+    if(newTarget == NULL)
+    {
+        IFF_error("Cannot allocate memory for an array of forms!\n");
+        return target;
+    }
+
+    target = newTarget;
 
     for(i = 0; i < sourceLength; i++)
         target[i + *targetLength] = source[i];
@@ -218,6 +225,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
+
+            if(forms == NULL)
+            {
+                IFF_error("Cannot allocate memory for an array of forms!\n");
+                *formsLength = 0;
+                return NULL;
+            }
+
             forms[0] = form;
             *formsLength = 1;
 
@@ -324,7 +339,15 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(newResult == NULL)
+            {
+                IFF_error("Cannot allocate memory for an array of chunks!\n");
+                return result;
+            }
+
+            result = newResult;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
-- 
2.43.0


From 27517973973d856387c02192c5ffdd0e088e6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 20/21] fix: iffjoin fails if memory runs out instead of
 leaving out an input or crashing

---
 src/iffjoin/join.c | 16 ++++++++++++++++
 src/iffjoin/main.c |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..eaf1806 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -27,6 +27,7 @@
 #include "cat.h"
 #include "list.h"
 #include "id.h"
+#include "error.h"
 
 int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, const char *outputFilename)
 {
@@ -34,6 +35,12 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+    {
+        IFF_error("ERROR: cannot allocate memory for the concatenation!\n");
+        return 1;
+    }
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
@@ -50,6 +57,15 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         }
         else
             IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
+
+        /* A chunk can only be left out if there is no memory for it */
+        if(cat->chunkLength != i + 1)
+        {
+            IFF_error("ERROR: cannot add: '%s' to the concatenation!\n", inputFilenames[i]);
+            IFF_free(chunk, NULL);
+            IFF_free((IFF_Chunk*)cat, NULL);
+            return 1;
+        }
     }
 
     /* Write the resulting CAT to the output file or standard output */
diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..cb02d6a 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
-- 
2.43.0


From c74e99bdde13e310396814ac1053219068f044dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:26 +0000
Subject: [PATCH 21/21] fix: a chunk that cannot be added for lack of memory
 leaves the contents type alone

---
 src/libiff/cat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index bb8db66..a244f0d 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -72,8 +72,15 @@ void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 
 void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
+    IFF_ID contentsType = cat->contentsType;
+    unsigned int chunkLength = cat->chunkLength;
+
     updateContentsType(cat, chunk);
     IFF_addToCAT(cat, chunk);
+
+    /* If there is no memory to add the chunk, then the contents type stays the same as well */
+    if(cat->chunkLength == chunkLength)
+        cat->contentsType = contentsType;
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
-- 
2.43.0

