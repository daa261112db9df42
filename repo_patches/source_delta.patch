From f3a995f69fe42d378712c5dc04f1275fa976e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:09 +0000
Subject: [PATCH 01/24] fix: update all eight chaining words in the SHA-224
 compression

The eighth word was never updated, so the digest of any message longer
than one block differed from the published SHA-224 value.
---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From 75f364fe9492b6449fccb25e4a06fa31b541eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:09 +0000
Subject: [PATCH 02/24] fix: count message bits above 2^32 in SHA-1, SHA-224
 and SHA-256

The byte count was truncated to 32 bits before the shift, so updating
with a single message of 4 GiB or more lost the upper bits of the
length that is hashed with the padding.
---
 wizard/sha1.c    | 2 +-
 wizard/sha2224.c | 2 +-
 wizard/sha2256.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/sha1.c b/wizard/sha1.c
index 6e3b556..5da1811 100644
--- a/wizard/sha1.c
+++ b/wizard/sha1.c
@@ -614,7 +614,7 @@ WizardExport WizardBooleanType UpdateSHA1(SHA1Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index 54cf2cb..32f9b7f 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -634,7 +634,7 @@ WizardExport WizardBooleanType UpdateSHA2224(SHA2224Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
diff --git a/wizard/sha2256.c b/wizard/sha2256.c
index 2aa0683..31e9a3a 100644
--- a/wizard/sha2256.c
+++ b/wizard/sha2256.c
@@ -635,7 +635,7 @@ WizardExport WizardBooleanType UpdateSHA2256(SHA2256Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
-- 
2.43.0


From c8db828993575699cab959ad2089946c3a1f53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:40 +0000
Subject: [PATCH 03/24] fix: absorb SHA-3 messages of 2^32 bits and more behind
 a partial block

The remaining bit count was narrowed to 32 bits, so an update whose length
is a multiple of 2^32 bits never advanced when bytes were already queued.
---
 wizard/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/sha3.c b/wizard/sha3.c
index 5c2069f..3a97dc3 100644
--- a/wizard/sha3.c
+++ b/wizard/sha3.c
@@ -799,7 +799,7 @@ static inline WizardBooleanType Absorb(SHA3Info *sha_info,
     if ((sha_info->bits_in_queue != 0) || (length < sha_info->rate) ||
         (i > (ssize_t) (length-sha_info->rate)))
       {
-        bits=(unsigned int) (length-i);
+        bits=(size_t) (length-i);
         if ((bits+sha_info->bits_in_queue) > sha_info->rate)
           bits=sha_info->rate-sha_info->bits_in_queue;
         byte=bits % 8;
-- 
2.43.0


From 91485b7e32dd664da6fe313284edd43b66fe19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:01 +0000
Subject: [PATCH 04/24] fix: give Serpent its 16-byte block size

Serpent enciphers 16 bytes per block, but the block size was given as 32.
The cipher modes step by the block size, so the second half of every 32-byte
block was left as plaintext.
---
 wizard/serpent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/serpent.c b/wizard/serpent.c
index 3d751fe..5b9b98a 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -70,7 +70,7 @@ struct _SerpentInfo
   (value)|=(*p++) << 16; \
   (value)|=(*p++) << 24; \
 }
-#define SerpentBlocksize 32
+#define SerpentBlocksize 16
 #define Write32Bits(p,value) \
 { \
   *p++=(unsigned char) (value); \
-- 
2.43.0


From 0a99806fea4cf3d9dbef661290999db178a28e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:02 +0000
Subject: [PATCH 05/24] fix: clear the words of an earlier Chacha key

Setting a key shorter than 16 bytes kept the remaining words of the key set
before it, so a text could not be deciphered with a fresh cipher object.
---
 wizard/chacha.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/chacha.c b/wizard/chacha.c
index 2485694..f3de18a 100644
--- a/wizard/chacha.c
+++ b/wizard/chacha.c
@@ -400,6 +400,7 @@ WizardExport void SetChachaKey(ChachaInfo *chacha_info,const StringInfo *key)
   WizardAssert(CipherDomain,chacha_info->signature == WizardSignature);
   WizardAssert(CipherDomain,key != (StringInfo *) NULL);
   datum=GetStringInfoDatum(key);
+  (void) memset(chacha_info->key,0,sizeof(chacha_info->key));
   if (GetStringInfoLength(key) >= 4)
     chacha_info->key[4]=PushChachaWord(datum+0);
   if (GetStringInfoLength(key) >= 8)
-- 
2.43.0


From 60f9efe0a40f1dc31dafd60a6efc99c51e8aa961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:12 +0000
Subject: [PATCH 06/24] fix: append a byte string behind the bytes already
 there

ConcatenateStringInfo() copied the source to the end of the enlarged
string, beyond its new length, and left the appended bytes undefined.
---
 wizard/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..2c899ab 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -716,7 +716,6 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
   length+=source->length;
   if (~length < WizardPathExtent)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  string_info->length=length;
   if (string_info->datum == (unsigned char *) NULL)
     string_info->datum=(unsigned char *) AcquireQuantumMemory(length+
       WizardPathExtent,sizeof(*string_info->datum));
@@ -726,7 +725,9 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+string_info->length,source->datum,
+    source->length);
+  string_info->length=length;
 }
 
 /*
-- 
2.43.0


From d59832415a4c8bffe507aa494be2051ca04032ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:27 +0000
Subject: [PATCH 07/24] fix: reserve room for the next read when reading a blob
 from a pipe

FileToBlob and FileToXML grew the buffer by the offset before the chunk just
read, so the second read from a stream that is not seekable wrote behind the
end of the buffer.  The byte string built from the blob also needs the usual
allowance behind its content.
---
 wizard/blob.c     | 9 +++++----
 wizard/xml-tree.c | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 7cb3ff6..73ff900 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -595,7 +595,8 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       quantum=(size_t) WizardMaxBufferExtent;
       if ((fstat(file,&file_info) == 0) && (file_info.st_size > 0))
         quantum=Min((size_t) file_info.st_size,WizardMaxBufferExtent);
-      blob=(unsigned char *) AcquireQuantumMemory(quantum,sizeof(*blob));
+      blob=(unsigned char *) AcquireQuantumMemory(quantum+MaxCipherBlocksize,
+        sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
         count=read(file,blob+i,quantum);
@@ -605,13 +606,13 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i) < (count+quantum+MaxCipherBlocksize))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+quantum+1,
-          sizeof(*blob));
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+
+          MaxCipherBlocksize,sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
       }
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index bd9ceee..eedf8e0 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -688,12 +688,12 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i) < (count+quantum+1))
           {
             xml=(char *) RelinquishWizardMemory(xml);
             break;
           }
-        xml=(char *) ResizeQuantumMemory(xml,i+quantum+1,sizeof(*xml));
+        xml=(char *) ResizeQuantumMemory(xml,i+count+quantum+1,sizeof(*xml));
         if ((size_t) (i+count) >= extent)
           break;
       }
-- 
2.43.0


From d2a7bd148e0ede837e2c9eb25b3ba7ca6177746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:58 +0000
Subject: [PATCH 08/24] fix: end a transfer at the end of the file whatever
 errno holds

A read of zero bytes leaves errno alone.  When an earlier call had been
interrupted by a signal the transfer loops took the end of the file for another
interruption and never came back.
---
 wizard/blob.c     | 4 ++++
 wizard/file.c     | 2 ++
 wizard/random.c   | 1 +
 wizard/string.c   | 1 +
 wizard/xml-tree.c | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index 73ff900..f0a3f2d 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -599,6 +599,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
         sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,quantum);
         if (count <= 0)
           {
@@ -667,6 +668,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
           "unable to seek blob `%s': %s",filename,strerror(errno));
       for (i=0; i < *length; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,Min(*length-i,(size_t) SSIZE_MAX));
         if (count <= 0)
           {
@@ -1549,6 +1551,7 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=ReadBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (unsigned char *) data+i);
     if (count <= 0)
@@ -2144,6 +2147,7 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=WriteBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (const unsigned char *) data+i);
     if (count <= 0)
diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..96ff86d 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -617,6 +617,7 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"%s",file_info->path);
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=read(file_info->file,(unsigned char *) data+i,Min(length-i,(size_t)
       WizardMaxBufferExtent));
     if (count <= 0)
@@ -862,6 +863,7 @@ WizardExport WizardBooleanType WriteFileChunk(FileInfo *file_info,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"%s",file_info->path);
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=write(file_info->file,(unsigned char *) data+i,length-i);
     if (count <= 0)
       {
diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..95d77c7 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -345,6 +345,7 @@ static ssize_t ReadRandom(int file,unsigned char *source,size_t length)
   offset=0;
   for (q=source; length != 0; length-=count)
   {
+    errno=0;
     count=(ssize_t) read(file,q,length);
     if (count <= 0)
       {
diff --git a/wizard/string.c b/wizard/string.c
index 2c899ab..9556e41 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -600,6 +600,7 @@ WizardExport StringInfo *ConfigureFileToStringInfo(const char *filename)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,string+i,(size_t) WizardMin(length-i,(size_t)
           SSIZE_MAX));
         if (count <= 0)
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index eedf8e0..cd85ab3 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -681,6 +681,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml=(char *) AcquireQuantumMemory(quantum,sizeof(*xml));
       for (i=0; xml != (char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,quantum);
         if (count <= 0)
           {
@@ -730,6 +731,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,(size_t) WizardMin(length-i,(ssize_t) SSIZE_MAX));
         if (count <= 0)
           {
-- 
2.43.0


From 65399d0c6e1df4f51b4d822679fae9f884157161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:30 +0000
Subject: [PATCH 09/24] fix: report a read error on a stream that is not
 seekable

FileToBlob and FileToXML took a failed read for the end of the stream and
returned the part read so far as the whole content.
---
 wizard/blob.c     | 5 +++++
 wizard/xml-tree.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index f0a3f2d..539771e 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -601,6 +601,11 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       {
         errno=0;
         count=read(file,blob+i,quantum);
+        if ((count < 0) && (errno != EINTR))
+          {
+            blob=(unsigned char *) RelinquishWizardMemory(blob);
+            break;
+          }
         if (count <= 0)
           {
             count=0;
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index cd85ab3..40b5167 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -683,6 +683,11 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       {
         errno=0;
         count=read(file,xml+i,quantum);
+        if ((count < 0) && (errno != EINTR))
+          {
+            xml=(char *) RelinquishWizardMemory(xml);
+            break;
+          }
         if (count <= 0)
           {
             count=0;
-- 
2.43.0


From 82313dbd83a32f50df0f973c6c7280528ce5d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:44 +0000
Subject: [PATCH 10/24] fix: report a corrupt key ring or reservoir instead of
 aborting

The path of the file was asked for after the file had been released, so a
foreign or damaged file ended the program.
---
 wizard/keyring.c | 30 +++++++++++++++---------------
 wizard/random.c  |  6 +++---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 7283079..0d974e8 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -230,9 +230,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -244,9 +244,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -257,9 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   {
     if (signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     keyring_info->signature=signature;
@@ -275,9 +275,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -286,9 +286,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -297,9 +297,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -320,9 +320,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
@@ -476,10 +476,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
         strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
@@ -606,9 +606,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -633,9 +633,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   {
     if (keyring_info.signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     status&=ReadFile32Bits(file_info,&length);
@@ -650,9 +650,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -661,9 +661,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -672,9 +672,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -714,9 +714,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
diff --git a/wizard/random.c b/wizard/random.c
index 95d77c7..bc42581 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -690,9 +690,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -707,9 +707,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     {
       filetype=DestroyStringInfo(filetype);
       target=DestroyStringInfo(target);
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -728,9 +728,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
   status&=ReadFile32Bits(file_info,&length);
   if (status == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
-- 
2.43.0


From 19aef6f534369352d4ada238e6e9daa17e9e5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:44 +0000
Subject: [PATCH 11/24] fix: refuse a key whose nonce could not be read
 completely

The last read of a record was not checked before the key was handed out.
---
 wizard/keyring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 0d974e8..a98346c 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -305,7 +305,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     nonce=AcquireStringInfo(length);
     status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
       GetStringInfoLength(nonce));
-    if (CompareStringInfo(keyring_info->id,id) == 0)
+    if ((status != WizardFalse) &&
+        (CompareStringInfo(keyring_info->id,id) == 0))
       {
         SetKeyringKey(keyring_info,key);
         SetKeyringNonce(keyring_info,nonce);
-- 
2.43.0


From a380d1bedcd45bb29f197e700e53924affc5f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:44 +0000
Subject: [PATCH 12/24] fix: report a key that could not be written to the key
 ring

---
 wizard/keyring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index a98346c..c146ae1 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -504,7 +504,7 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       "unable to write keyring `%s': %s",GetFilePath(file_info),
       strerror(errno));
   file_info=DestroyFileInfo(file_info,exception);
-  return(WizardTrue);
+  return(status == WizardFalse ? WizardFalse : WizardTrue);
 }
 
 /*
-- 
2.43.0


From acadd489abf8d379163ca12fdc56c137a6dd9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:44 +0000
Subject: [PATCH 13/24] fix: label a key ring record with the version of its
 layout

A key looked up in a version 1.0 key ring kept that version.  Stored again it
was written in the current layout but labelled 1.0, and could not be read back.
---
 wizard/keyring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index c146ae1..bdb4dac 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -485,8 +485,8 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
   status&=WriteFile32Bits(file_info,0U);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_major);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_minor);
+  status&=WriteFile16Bits(file_info,KeyringProtocolMajorVersion);
+  status&=WriteFile16Bits(file_info,KeyringProtocolMinorVersion);
   status&=WriteFile64Bits(file_info,(WizardSizeType) keyring_info->timestamp);
   length=GetStringInfoLength(keyring_info->id);
   status&=WriteFile32Bits(file_info,(size_t) length);
-- 
2.43.0


From eb3377a1cb52dad8e3a46fd984c5d789f947c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:16 +0000
Subject: [PATCH 14/24] fix: report a secret key that could not be stored in
 the key ring

---
 wizard/secret.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 38f0966..d55c5db 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -332,7 +332,7 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   status=ImportKeyringKey(secret_info->keyring_info,exception);
   phrase=DestroyStringInfo(phrase);
   key=DestroyStringInfo(key);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 31c367322a1524a8f4680f039cd5715a628f46b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:22 +0000
Subject: [PATCH 15/24] fix: report an incomplete LZMA stream as a failure

---
 wizard/lzma.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/lzma.c b/wizard/lzma.c
index 2e52e63..f0ff402 100644
--- a/wizard/lzma.c
+++ b/wizard/lzma.c
@@ -261,7 +261,7 @@ WizardExport WizardBooleanType IncreaseLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
@@ -356,7 +356,7 @@ WizardExport WizardBooleanType RestoreLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
-- 
2.43.0


From 012e800b2aa6e5deb7243f9fd4e1bdaa0b7837e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:29 +0000
Subject: [PATCH 16/24] fix: compress and restore messages of 4 GiB and more
 completely

---
 wizard/bzip.c | 55 +++++++++++++++++++++++++++++++++++++++++++--------
 wizard/zip.c  | 43 ++++++++++++++++++++++++++++++++++------
 2 files changed, 84 insertions(+), 14 deletions(-)

diff --git a/wizard/bzip.c b/wizard/bzip.c
index fec4060..5aa5e2c 100644
--- a/wizard/bzip.c
+++ b/wizard/bzip.c
@@ -45,8 +45,14 @@
 #include "wizard/exception.h"
 #include "wizard/exception-private.h"
 #include "wizard/memory_.h"
+#include "wizard/utility-private.h"
 #include "bzlib.h"
 
+/*
+  Define declarations.
+*/
+#define BZIPMaxExtent  ((size_t) (~0U))
+
 /*
   Typedef declaractions;
 */
@@ -223,6 +229,10 @@ WizardExport WizardBooleanType IncreaseBZIP(BZIPInfo *bzip_info,
   bz_stream
     stream;
 
+  size_t
+    extent,
+    remaining;
+
   /*
     Increase the message entropy.
   */
@@ -241,19 +251,31 @@ WizardExport WizardBooleanType IncreaseBZIP(BZIPInfo *bzip_info,
       return(WizardFalse);
     }
   stream.next_in=(char *) GetStringInfoDatum(message);
-  stream.avail_in=(unsigned int) GetStringInfoLength(message);
   SetStringInfoLength(bzip_info->chaos,(size_t)
     (GetStringInfoLength(message)+GetStringInfoLength(message)/100+600));
   stream.next_out=(char *) GetStringInfoDatum(bzip_info->chaos);
-  stream.avail_out=(unsigned int) GetStringInfoLength(bzip_info->chaos);
-  status=BZ2_bzCompress(&stream,BZ_FINISH);
+  do
+  {
+    /*
+      The BZIP stream counts the available bytes in an unsigned int.
+    */
+    remaining=GetStringInfoLength(message)-(size_t) (stream.next_in-
+      (char *) GetStringInfoDatum(message));
+    extent=GetStringInfoLength(bzip_info->chaos)-(size_t) (stream.next_out-
+      (char *) GetStringInfoDatum(bzip_info->chaos));
+    stream.avail_in=(unsigned int) WizardMin(remaining,BZIPMaxExtent);
+    stream.avail_out=(unsigned int) WizardMin(extent,BZIPMaxExtent);
+    status=BZ2_bzCompress(&stream,remaining > BZIPMaxExtent ? BZ_RUN :
+      BZ_FINISH);
+  } while ((status == BZ_RUN_OK) || (status == BZ_FINISH_OK));
   if (status != BZ_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to increase entropy `%s'",strerror(errno));
       return(WizardFalse);
     }
-  SetStringInfoLength(bzip_info->chaos,(size_t) stream.total_out_lo32);
+  SetStringInfoLength(bzip_info->chaos,(size_t) (stream.next_out-(char *)
+    GetStringInfoDatum(bzip_info->chaos)));
   status=BZ2_bzCompressEnd(&stream);
   if (status != BZ_OK)
     {
@@ -303,6 +325,10 @@ WizardExport WizardBooleanType RestoreBZIP(BZIPInfo *bzip_info,
   bz_stream
     stream;
 
+  size_t
+    extent,
+    remaining;
+
   /*
     Restore the message entropy.
   */
@@ -321,18 +347,31 @@ WizardExport WizardBooleanType RestoreBZIP(BZIPInfo *bzip_info,
       return(WizardFalse);
     }
   stream.next_in=(char *) GetStringInfoDatum(message);
-  stream.avail_in=(unsigned int) GetStringInfoLength(message);
   SetStringInfoLength(bzip_info->chaos,length);
   stream.next_out=(char *) GetStringInfoDatum(bzip_info->chaos);
-  stream.avail_out=(unsigned int) GetStringInfoLength(bzip_info->chaos);
-  status=BZ2_bzDecompress(&stream);
+  do
+  {
+    /*
+      The BZIP stream counts the available bytes in an unsigned int.
+    */
+    remaining=GetStringInfoLength(message)-(size_t) (stream.next_in-
+      (char *) GetStringInfoDatum(message));
+    extent=GetStringInfoLength(bzip_info->chaos)-(size_t) (stream.next_out-
+      (char *) GetStringInfoDatum(bzip_info->chaos));
+    stream.avail_in=(unsigned int) WizardMin(remaining,BZIPMaxExtent);
+    stream.avail_out=(unsigned int) WizardMin(extent,BZIPMaxExtent);
+    status=BZ2_bzDecompress(&stream);
+  } while ((status == BZ_OK) &&
+           (((stream.avail_in == 0) && (remaining > BZIPMaxExtent)) ||
+            ((stream.avail_out == 0) && (extent > BZIPMaxExtent))));
   if (status != BZ_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
       return(WizardFalse);
     }
-  SetStringInfoLength(bzip_info->chaos,(size_t) stream.total_out_lo32);
+  SetStringInfoLength(bzip_info->chaos,(size_t) (stream.next_out-(char *)
+    GetStringInfoDatum(bzip_info->chaos)));
   status=BZ2_bzDecompressEnd(&stream);
   if (status != BZ_OK)
     {
diff --git a/wizard/zip.c b/wizard/zip.c
index 3005d67..091606c 100644
--- a/wizard/zip.c
+++ b/wizard/zip.c
@@ -44,9 +44,15 @@
 #include "wizard/exception.h"
 #include "wizard/exception-private.h"
 #include "wizard/memory_.h"
+#include "wizard/utility-private.h"
 #include "wizard/zip.h"
 #include "zlib.h"
 
+/*
+  Define declarations.
+*/
+#define ZIPMaxExtent  ((size_t) (~0U))
+
 /*
   Typedef declarations.
 */
@@ -213,6 +219,10 @@ WizardExport WizardBooleanType IncreaseZIP(ZIPInfo *zip_info,
   int
     status;
 
+  size_t
+    extent,
+    remaining;
+
   z_stream
     stream;
 
@@ -235,12 +245,20 @@ WizardExport WizardBooleanType IncreaseZIP(ZIPInfo *zip_info,
       return(WizardFalse);
     }
   stream.next_in=(Bytef *) GetStringInfoDatum(message);
-  stream.avail_in=(uInt) GetStringInfoLength(message);
   SetStringInfoLength(zip_info->chaos,(size_t) deflateBound(&stream,
     (unsigned long) GetStringInfoLength(message)));
   stream.next_out=(Bytef *) GetStringInfoDatum(zip_info->chaos);
-  stream.avail_out=(uInt) GetStringInfoLength(zip_info->chaos);
-  status=deflate(&stream,Z_FINISH);
+  do
+  {
+    /*
+      The ZIP stream counts the available bytes in an unsigned int.
+    */
+    remaining=GetStringInfoLength(message)-(size_t) stream.total_in;
+    extent=GetStringInfoLength(zip_info->chaos)-(size_t) stream.total_out;
+    stream.avail_in=(uInt) WizardMin(remaining,ZIPMaxExtent);
+    stream.avail_out=(uInt) WizardMin(extent,ZIPMaxExtent);
+    status=deflate(&stream,remaining > ZIPMaxExtent ? Z_NO_FLUSH : Z_FINISH);
+  } while (status == Z_OK);
   if (status != Z_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
@@ -294,6 +312,10 @@ WizardExport WizardBooleanType RestoreZIP(ZIPInfo *zip_info,const size_t length,
   int
     status;
 
+  size_t
+    extent,
+    remaining;
+
   z_stream
     stream;
 
@@ -316,11 +338,20 @@ WizardExport WizardBooleanType RestoreZIP(ZIPInfo *zip_info,const size_t length,
       return(WizardFalse);
     }
   stream.next_in=(Bytef *) GetStringInfoDatum(message);
-  stream.avail_in=(uInt) GetStringInfoLength(message);
   SetStringInfoLength(zip_info->chaos,length);
   stream.next_out=(Bytef *) GetStringInfoDatum(zip_info->chaos);
-  stream.avail_out=(uInt) GetStringInfoLength(zip_info->chaos);
-  status=inflate(&stream,Z_FINISH);
+  do
+  {
+    /*
+      The ZIP stream counts the available bytes in an unsigned int.
+    */
+    remaining=GetStringInfoLength(message)-(size_t) stream.total_in;
+    extent=GetStringInfoLength(zip_info->chaos)-(size_t) stream.total_out;
+    stream.avail_in=(uInt) WizardMin(remaining,ZIPMaxExtent);
+    stream.avail_out=(uInt) WizardMin(extent,ZIPMaxExtent);
+    status=inflate(&stream,(remaining > ZIPMaxExtent) ||
+      (extent > ZIPMaxExtent) ? Z_NO_FLUSH : Z_FINISH);
+  } while (status == Z_OK);
   if (status != Z_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
-- 
2.43.0


From 94ba573587cd05a3f5ece9692f6b94ef18ff74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:09 +0000
Subject: [PATCH 17/24] fix: release a resource for virtual memory only if it
 was granted

---
 wizard/memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..71c6070 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -545,10 +545,10 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
                 WizardTrue);
               *memory_info->filename = '\0';
             }
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From a481987034bd4c4693e34940d63553079872b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:38 +0000
Subject: [PATCH 18/24] fix: refuse a resource request whose total overflows

---
 wizard/resource.c | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..207a1e3 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -385,6 +385,21 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 %    o size: The number of bytes needed from for this resource.
 %
 */
+static WizardBooleanType IncreaseResource(WizardOffsetType *resource,
+  const WizardSizeType size,const WizardSizeType limit)
+{
+  WizardSizeType
+    total;
+
+  total=(WizardSizeType) *resource+size;
+  if ((total < size) || ((WizardOffsetType) total < 0))
+    return(WizardFalse);
+  if ((limit != WizardResourceInfinity) && (total >= limit))
+    return(WizardFalse);
+  *resource=(WizardOffsetType) total;
+  return(WizardTrue);
+}
+
 WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   const WizardSizeType size)
 {
@@ -420,13 +435,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
       limit=resource_info.memory_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.memory,size,limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -435,13 +445,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
       limit=resource_info.map_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.map,size,limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -450,13 +455,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
       limit=resource_info.disk_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.disk,size,limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -465,13 +465,8 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
       limit=resource_info.file_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+      status=IncreaseResource(&resource_info.file,size,limit);
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From 4dc3643ae829ba3e42a56d4882799e1127995b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:41 +0000
Subject: [PATCH 19/24] fix: give the file resource of a temporary file back
 with it

---
 wizard/resource.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 207a1e3..69d319b 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
@@ -854,7 +854,10 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
         p=(char *) GetNextKeyInSplayTree(temporary_resources);
       }
       if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
+        {
+          (void) DeleteNodeFromSplayTree(temporary_resources,p);
+          RelinquishWizardResource(FileResource,1);
+        }
     }
   if (trash == WizardFalse)
     return(WizardTrue);
-- 
2.43.0


From 1cf7bb1d99fdbc56773ef275a73bbf78599e5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:38 +0000
Subject: [PATCH 20/24] fix: insert a value in the middle of a linked list
 instead of dropping it

---
 wizard/hashmap.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..69df2b4 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1046,7 +1046,6 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
             element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
-- 
2.43.0


From 94c55c1871a269e9026d981705331e8da9169f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:58 +0000
Subject: [PATCH 21/24] fix: count a replaced hash map entry once and one
 stored without growth as well

---
 wizard/hashmap.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 69df2b4..bf464c2 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1542,6 +1542,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
                   entry->value=hashmap_info->relinquish_value(entry->value);
                 entry=(EntryInfo *) RelinquishWizardMemory(entry);
+                hashmap_info->entries--;
                 break;
               }
           }
@@ -1554,13 +1555,9 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
       UnlockSemaphoreInfo(hashmap_info->semaphore);
       return(WizardFalse);
     }
-  if (list_info->elements >= (hashmap_info->capacity-1))
-    if (IncreaseHashmapCapacity(hashmap_info) == WizardFalse)
-      {
-        UnlockSemaphoreInfo(hashmap_info->semaphore);
-        return(WizardFalse);
-      }
   hashmap_info->entries++;
+  if (list_info->elements >= (hashmap_info->capacity-1))
+    (void) IncreaseHashmapCapacity(hashmap_info);
   UnlockSemaphoreInfo(hashmap_info->semaphore);
   return(WizardTrue);
 }
-- 
2.43.0


From f2858593550e10016e02bc7062dfa3e6ac7ecfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:03 +0000
Subject: [PATCH 22/24] fix: keep the linked list iterator off a replaced
 element, and release that element at the head too

---
 wizard/hashmap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index bf464c2..0fe2ef7 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1122,11 +1122,15 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
       {
         if (i == 0)
           {
-            *replace=next->next->value;
-            next->next=next->next->next;
-            if (element != (ElementInfo *) NULL)
-              element->next=(ElementInfo *) RelinquishWizardMemory(
-                element->next);
+            ElementInfo
+              *replaced;
+
+            replaced=next->next;
+            *replace=replaced->value;
+            next->next=replaced->next;
+            if (list_info->next == replaced)
+              list_info->next=next;
+            replaced=(ElementInfo *) RelinquishWizardMemory(replaced);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0


From bdbc53c4528b27acfc65001d8450c916166d2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:16 +0000
Subject: [PATCH 23/24] fix: honour a negated member of an option list

The exclamation mark is skipped before the name is copied, so looking for it
in the copy never found it and the member was added instead of removed.
---
 wizard/option.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/option.c b/wizard/option.c
index 4433680..98276d3 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -470,7 +470,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     {
       if (LocaleCompare(token,option_info[i].mnemonic) == 0)
         {
-          if (*token == '!')
+          if (negate != WizardFalse)
             option_types=option_types &~ option_info[i].type;
           else
             option_types=option_types | option_info[i].type;
@@ -488,7 +488,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
         for (i=0; option_info[i].mnemonic != (char *) NULL; i++)
           if (LocaleCompare(token,option_info[i].mnemonic) == 0)
             {
-              if (*token == '!')
+              if (negate != WizardFalse)
                 option_types=option_types &~ option_info[i].type;
               else
                 option_types=option_types | option_info[i].type;
-- 
2.43.0


From f6a9ba9ec9377be3d508446d4261d230c5919a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:16 +0000
Subject: [PATCH 24/24] fix: recognise command options by name

The names in this table start with the sign that was skipped, so none of them
was ever found.
---
 wizard/option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/option.c b/wizard/option.c
index 98276d3..c5ba4c1 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -452,7 +452,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     while (((isspace((int) ((unsigned char) *p)) != 0) || (*p == ',')) &&
            (*p != '\0'))
       p++;
-    if ((*p == '-') || (*p == '+'))
+    if (((*p == '-') || (*p == '+')) && (option != WizardCommandOptions))
       p++;
     negate=(*p == '!') ? WizardTrue : WizardFalse;
     if (negate != WizardFalse)
-- 
2.43.0

