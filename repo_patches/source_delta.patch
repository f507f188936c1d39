From e6cce45529dcc20f3dda86a7d14c2b6d3657a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 01/76] fix: MIPS: save the return-structure address and all
 register parameters of functions returning structures

---
 v0100/cgmips.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 07a9359..378db98 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -554,9 +554,17 @@ void GenUpdateFrameSize(void)
 STATIC
 void GenFxnProlog(void)
 {
+  int i, cnt = 0;
   if (CurFxnParamCntMin && CurFxnParamCntMax)
+    cnt = CurFxnParamCntMax;
+#ifndef NO_STRUCT_BY_VAL
+  // Account for the implicit first parameter, the address of the returned structure
+  if (CurFxnReturnExprTypeSynPtr >= 0 &&
+      SyntaxStack0[CurFxnReturnExprTypeSynPtr] == tokStructPtr)
+    cnt++;
+#endif
+  if (cnt)
   {
-    int i, cnt = CurFxnParamCntMax;
     if (cnt > 4)
       cnt = 4;
     // TBD!!! for structure passing use the cumulative parameter size
-- 
2.43.0


From a0ac038fd01864ee2e200da9731fcb4d1b100cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 02/76] fix: printf: no 0x prefix when the value of %#hx or
 %#hhx converts to zero

---
 v0100/srclib/doprint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..13e997d 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -505,6 +503,9 @@ int __doprint(FILE* f, char* fmt, va_list vl)
           v = -v, sign = '-';
       }
 
+      if (alt && v && toupper(c) == 'X')
+        hexpfx = (c == 'X') ? "0X" : "0x";
+
       tmp = v;
       do
       {
-- 
2.43.0


From ab41b9b5a72d785af589cc2a51f762315d537c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 03/76] fix: printf: round ties to even when %e/%g drop
 integral digits

---
 v0100/srclib/cvtdf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/v0100/srclib/cvtdf.c b/v0100/srclib/cvtdf.c
index 32e5c6a..5724ec7 100644
--- a/v0100/srclib/cvtdf.c
+++ b/v0100/srclib/cvtdf.c
@@ -111,12 +111,14 @@ int __cvtdif(float x, char* buf, int size, int* rem)
       a[i] = r / 10;
       r %= 10;
     } while (--i >= 0);
-    // fill the output buffer circularly from back to front
-    *--p = r + '0';
+    // fill the output buffer circularly from back to front,
+    // noting non-zero digits that get overwritten (there's no room for them)
+    --p;
+    if (++cnt > size && rem)
+      *rem |= *p - '0';
+    *p = r + '0';
     if (p == buf)
       p += size;
-    if (++cnt > size && rem)
-      *rem |= r;
     // if the starting 16-bit chunk is 0 after dividing it by 10,
     // don't use it anymore, and if chunk 0 is 0, we're done
     if (a[e] == 0)
-- 
2.43.0


From 5b1aea05c17437e155ac6aa80ddf007f2b45ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 04/76] fix: strtof, scanf: don't scale by fractional digits
 that are beyond the limit and ignored

---
 v0100/srclib/doscan.c | 3 +--
 v0100/srclib/strtof.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 29cecfb..307291b 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -373,8 +373,7 @@ lmatchchars2:
               chcnt++; width--;
               gotfrct = 2; // got fractional part digits: non-zero
               if (mcnt < MAX_FP_DIGITS)
-                digits[mcnt++] = c2 - '0';
-              mexp--; // TBD??? overflow
+                digits[mcnt++] = c2 - '0', mexp--; // TBD??? overflow
             }
             else if (toupper(c2) == 'E' && (gotint | gotfrct))
             {
diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index bc6f7d8..17615b8 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -87,8 +87,7 @@ float strtof(char* nptr, char** endptr)
       {
         gotfrct = 2; // got fractional part digits: non-zero
         if (mcnt < MAX_FP_DIGITS)
-          digits[mcnt++] = c - '0';
-        mexp--; // TBD??? overflow
+          digits[mcnt++] = c - '0', mexp--; // TBD??? overflow
         nptr++;
       }
     }
-- 
2.43.0


From c6ffd7085519d7d20f7cebbd1ff8ed35ed8d2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 05/76] fix: strtof: huge exponents overflow or underflow
 instead of making the text invalid

---
 v0100/srclib/strtof.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index 17615b8..4fed0d0 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -112,11 +112,9 @@ float strtof(char* nptr, char** endptr)
         if (ex10 / 10 != eexp ||
             ex10 + d < ex10 ||
             ex10 + d > (unsigned)-1 / 2)
-        {
-          nptr = nptr0;
-          goto lend;
-        }
-        eexp = ex10 + d;
+          eexp = (unsigned)-1 / 2; // cap exponent
+        else
+          eexp = ex10 + d;
         nptr++;
       }
       if (!gotexp)
-- 
2.43.0


From a5a2f07db7346181787f4cf22353684d77aefd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 06/76] fix: scanf: %n after white space at the end of input
 counted EOF as a character

---
 v0100/srclib/doscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 307291b..1f761d3 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -33,8 +33,9 @@ int __doscan(FILE* f, char* fmt, va_list vl)
         c2 = fgetc(f);
         chcnt++;
       } while (isspace(c2));
+      chcnt--;
       if (c2 != EOF)
-        ungetc(c2, f), chcnt--;
+        ungetc(c2, f);
     }
 
     else if (c != '%' || *fmt == '%')
-- 
2.43.0


From 82f7e4807cdd1dc2dab065f8ed17bff0c5e30857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 07/76] fix: scanf: %% skips white space

---
 v0100/srclib/doscan.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 1f761d3..3529a4d 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -40,7 +40,14 @@ int __doscan(FILE* f, char* fmt, va_list vl)
 
     else if (c != '%' || *fmt == '%')
     {
-      fmt += (c == '%');
+      if (c == '%') // %% skips white space like most conversions
+      {
+        fmt++;
+        while (isspace(c2 = fgetc(f)))
+          chcnt++;
+        if (c2 != EOF)
+          ungetc(c2, f);
+      }
       goto lmatchchars2;
 lmatchchars:
       if ((c = (unsigned char)*fmt++) == '\0')
-- 
2.43.0


From cce5a70167d5c338d3f72f3b7aaa5f9de990fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 08/76] fix: Linux malloc: requests close to 4GB shrank the
 heap and succeeded

---
 v0100/srclib/malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..d7c603d 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,11 +303,12 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
 
+  if ((int)togrow <= 0) // too large, would shrink the heap
+    return 0;
+
   if ((int)__sbrk(togrow) != -1)
   {
     unsigned* nxtblk = (unsigned*)((unsigned)blk + 2*HEADER_FOOTER_SZ + size);
-- 
2.43.0


From 757eac0ba1ad70a7d70cdd81e4f3c91a6b12ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 09/76] fix: realloc: join the freed tail of a shrunk block
 with a following free block

---
 v0100/srclib/realloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/realloc.c b/v0100/srclib/realloc.c
index 88d5ea9..4c464a8 100644
--- a/v0100/srclib/realloc.c
+++ b/v0100/srclib/realloc.c
@@ -107,9 +107,11 @@ void* realloc(void* ptr, unsigned size)
         mid[-1] = size;
         sz -= size + 2*HEADER_FOOTER_SZ;
         mid[0] = sz;
-        mid[1] = 0; // free
-        nxtblk[-2] = 0; // free
+        mid[1] = 1; // allocated
+        nxtblk[-2] = 1; // allocated
         nxtblk[-1] = sz;
+        // Free the 2nd part, joining it with the next block if that is free
+        free((void*)((unsigned)mid + HEADER_FOOTER_SZ));
       }
       return ptr;
     }
-- 
2.43.0


From c0717f6073068bc54ed626c1365c6ef08a49674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 10/76] fix: huge/unreal realloc: a failing call left the block
 as large as memory permits

---
 v0100/srclib/realloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/v0100/srclib/realloc.c b/v0100/srclib/realloc.c
index 4c464a8..ba00a1a 100644
--- a/v0100/srclib/realloc.c
+++ b/v0100/srclib/realloc.c
@@ -43,6 +43,9 @@ void* realloc(void* ptr, unsigned size)
   else
   {
     unsigned newParas = (size + 15) >> 4;
+    char* mcbSig = (char*)ptr - 16;
+    unsigned short* mcbParas = (unsigned short*)(mcbSig + 3);
+    unsigned oldParas = *mcbParas; // size of *ptr in paragraphs from MCB
     if (DosMemResize((unsigned)ptr >> 4, newParas))
     {
       return ptr;
@@ -50,10 +53,7 @@ void* realloc(void* ptr, unsigned size)
     else
     {
       // In-place resize failed. Try another allocation.
-      char* mcbSig = (char*)ptr - 16;
-      unsigned short* mcbParas = (unsigned short*)(mcbSig + 3);
       int sig = *mcbSig;
-      unsigned oldParas = *mcbParas; // size of *ptr in paragraphs from MCB
       if ((sig == 'M' || sig == 'Z') && oldParas < newParas) // minor MCB sanity checks
       {
         void* ptr2 = malloc(size);
@@ -63,6 +63,8 @@ void* realloc(void* ptr, unsigned size)
           free(ptr);
           return ptr2;
         }
+        // The failed resize could have grown the block as much as possible.
+        DosMemResize((unsigned)ptr >> 4, oldParas);
       }
     }
     return 0;
-- 
2.43.0


From 6ef4bfc2f323d25d558c4534ce5579d5b6ff167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 11/76] fix: fgetc etc: let a write follow a read that has
 reached EOF

---
 v0100/srclib/fillbuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/srclib/fillbuf.c b/v0100/srclib/fillbuf.c
index 327502d..9b6bd00 100644
--- a/v0100/srclib/fillbuf.c
+++ b/v0100/srclib/fillbuf.c
@@ -73,7 +73,11 @@ int __fillbuf(FILE* f)
   if ((rread = __read(f->fd, f->buf, f->bufsz)) <= 0)
   {
     if (!rread)
+    {
       f->flags |= _IOEOF; // if simply read 0 bytes
+      if (f->flags & _IORWOK)
+        f->flags &= ~_IORD; // a write may directly follow a read that has reached EOF
+    }
     else
       f->flags |= _IOERR; // if got an error
     f->cnt = 0;
-- 
2.43.0


From 6143c51fbb118a034d7c676197f6abeca7f26275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 12/76] fix: fseek(SEEK_CUR): account for the unread part of
 the buffer

---
 v0100/srclib/fseek.c   |  5 +++++
 v0100/srclib/fseek16.c | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/fseek.c b/v0100/srclib/fseek.c
index 3e7610f..6c301f3 100644
--- a/v0100/srclib/fseek.c
+++ b/v0100/srclib/fseek.c
@@ -48,6 +48,11 @@ int fseek(FILE* f, long offset, int whence)
     return -1;
   }
 
+  // The underlying file's position is ahead of the C file's position
+  // by the number of bytes read into the buffer and not yet consumed
+  if (whence == SEEK_CUR && (f->flags & _IORD))
+    offset -= f->cnt;
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
diff --git a/v0100/srclib/fseek16.c b/v0100/srclib/fseek16.c
index 54523cc..ef258c2 100644
--- a/v0100/srclib/fseek16.c
+++ b/v0100/srclib/fseek16.c
@@ -80,6 +80,17 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
     return -1;
   }
 
+  pos = *offset; // preserve the position parameter
+
+  // The underlying file's position is ahead of the C file's position
+  // by the number of bytes read into the buffer and not yet consumed
+  if (whence == SEEK_CUR && (f->flags & _IORD))
+  {
+    fpos_t t;
+    __lngFromUnsigned(&t, f->cnt);
+    __lngSub(&pos, &t);
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
@@ -91,7 +102,6 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
   if (f->flags & _IOAPPEND)
     return 0;
 
-  pos = *offset; // preserve the position parameter
   if (__lseekp(f->fd, &pos, whence))
   {
     return -1;
-- 
2.43.0


From 695f408143e5e43e89924c97f0a8fa8ab3597d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 13/76] fix: 16-bit __ftell/fgetpos: don't move the file by
 what *pos held

---
 v0100/srclib/ftell16.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index abf234a..85e61b0 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -9,6 +9,7 @@
 
 int __ftell(FILE* f, fpos_t* pos)
 {
+  pos->halves[1] = pos->halves[0] = 0;
   if (__lseekp(f->fd, pos, SEEK_CUR))
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From 75d8c846aa7df43245ec567b734e078232ffaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 14/76] fix: ftell: in append mode buffered data goes to the
 end of the file

---
 v0100/srclib/ftell.c   | 3 ++-
 v0100/srclib/ftell16.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/ftell.c b/v0100/srclib/ftell.c
index d3bfaef..824b25b 100644
--- a/v0100/srclib/ftell.c
+++ b/v0100/srclib/ftell.c
@@ -9,7 +9,8 @@
 #ifdef __SMALLER_C_32__
 long ftell(FILE* f)
 {
-  long pos = __lseek(f->fd, 0L, SEEK_CUR);
+  // in append mode data is written at the end of the file, wherever the underlying position is
+  long pos = __lseek(f->fd, 0L, (f->flags & _IOAPPEND) ? SEEK_END : SEEK_CUR);
   if (pos == -1)
   {
 //    errno = EUNKNOWN;
diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index 85e61b0..9b15715 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -10,7 +10,8 @@
 int __ftell(FILE* f, fpos_t* pos)
 {
   pos->halves[1] = pos->halves[0] = 0;
-  if (__lseekp(f->fd, pos, SEEK_CUR))
+  // in append mode data is written at the end of the file, wherever the underlying position is
+  if (__lseekp(f->fd, pos, (f->flags & _IOAPPEND) ? SEEK_END : SEEK_CUR))
   {
 //    errno = EUNKNOWN;
     return -1;
-- 
2.43.0


From 631355e0a5c262c0e866af9187c2e764d7b86f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 15/76] fix: freopen: flush the stream before opening the file
 again

---
 v0100/srclib/freopen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/srclib/freopen.c b/v0100/srclib/freopen.c
index 4454a4f..538767c 100644
--- a/v0100/srclib/freopen.c
+++ b/v0100/srclib/freopen.c
@@ -16,6 +16,10 @@ FILE* freopen(char* name, char* mode, FILE* stream)
   if (!name || !stream)
     return NULL;
 
+  // What's been written through the stream so far must not land
+  // in the file after it's been reopened (and perhaps truncated)
+  fflush(stream);
+
   // TBD??? Should open really happen after close as the standard says???
   if (!(f = fopen(name, mode)))
     return NULL;
-- 
2.43.0


From ccf58242ccb109381eef055f8a52d87580c043ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 16/76] fix: freopen: close the stream's file before opening,
 it can be the same file

---
 v0100/srclib/freopen.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/v0100/srclib/freopen.c b/v0100/srclib/freopen.c
index 538767c..da0e613 100644
--- a/v0100/srclib/freopen.c
+++ b/v0100/srclib/freopen.c
@@ -16,14 +16,6 @@ FILE* freopen(char* name, char* mode, FILE* stream)
   if (!name || !stream)
     return NULL;
 
-  // What's been written through the stream so far must not land
-  // in the file after it's been reopened (and perhaps truncated)
-  fflush(stream);
-
-  // TBD??? Should open really happen after close as the standard says???
-  if (!(f = fopen(name, mode)))
-    return NULL;
-
   std = !stream->next; // stdin, stdout, stderr aren't chained
 
   // Prevent free(stream) in fclose(stream) by temporarily unchaining stream
@@ -34,8 +26,16 @@ FILE* freopen(char* name, char* mode, FILE* stream)
     stream->next = stream->prev = NULL;
   }
 
+  // Close the file before opening the new one since they can be the same file
   fclose(stream);
 
+  if (!(f = fopen(name, mode)))
+  {
+    if (!std)
+      free(stream);
+    return NULL;
+  }
+
   // Transplant *f to *stream
   *stream = *f;
 
-- 
2.43.0


From 3773e08f4ea7d4af439c783de3d2edaf981780c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 17/76] fix: fputc: convert to unsigned char before looking for
 a new line

---
 v0100/srclib/fputc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/fputc.c b/v0100/srclib/fputc.c
index a299c54..cfc76f2 100644
--- a/v0100/srclib/fputc.c
+++ b/v0100/srclib/fputc.c
@@ -41,6 +41,7 @@ static int __fputc(int c, FILE* f)
 
 int fputc(int c, FILE* f)
 {
+  c = (unsigned char)c;
 #ifndef UNIX_LIKE
   if (c == '\n' && !(f->flags & _IOBINARY))
     __fputc('\r', f); // insert '\r'
-- 
2.43.0


From ee842683324b888e2c69653a2898e6b9484cf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 18/76] fix: smlrc: do not pop the include stack below empty at
 end of input

---
 v0100/smlrc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..3842b63 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1192,7 +1192,8 @@ STATIC
 int EndOfFiles(void)
 {
   // if there are no including files, we're done
-  if (!--FileCnt)
+  // (the end may be met more than once, when a token is looked for beyond it)
+  if (!FileCnt || !--FileCnt)
     return 1;
 
   // restore the including file's position and buffered chars
-- 
2.43.0


From 44bd22236c036db556b2ae8b0307f9110b140734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 19/76] fix: ucpp: give ?: in #if the common type of both
 operands

---
 v0100/ucpp/eval.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 1bbd06d..c4f9c74 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -522,6 +522,26 @@ static ppval eval_opbin(int op, ppval v1, ppval v2)
 	return r;
 }
 
+/*
+ * Signedness of the result of a binary operator, for operators that are
+ * not evaluated but determine the type of the expression nevertheless.
+ */
+static int opbin_sign(int op, int s1, int s2)
+{
+	switch (op) {
+	case STAR:	case SLASH:	case PCT:
+	case PLUS:	case MINUS:	case AND:
+	case CIRC:	case OR:
+		return s1 && s2;
+	case LSH:
+	case RSH:
+		return s1;
+	case COMMA:
+		return s2;
+	}
+	return 1;
+}
+
 static int ttOP(int x)
 {
 	return OP_UN(x) || OP_BIN(x) || x == QUEST || x == COLON;
@@ -627,8 +647,8 @@ eval_loop:
 			if ((ct->type == LOR && boolval(top))
 				|| (ct->type == LAND && !boolval(top))) {
 				tr = eval_shrd(tf, bp, 0);
+				top.sign = 1;
 				if (do_eval) {
-					top.sign = 1;
 					if (ct->type == LOR)
 						top.u.sv = big_s_fromint(1);
 					if (ct->type == LAND)
@@ -638,6 +658,9 @@ eval_loop:
 				tr = eval_shrd(tf, bp, do_eval);
 				if (do_eval)
 					top = eval_opbin(ct->type, top, tr);
+				else
+					top.sign = opbin_sign(ct->type,
+						top.sign, tr.sign);
 			}
 			goto eval_loop;
 		}
@@ -656,8 +679,16 @@ eval_loop:
 				throw(eval_exception);
 			}
 			r2 = eval_shrd(tf, bp, qv ? 0 : do_eval);
+			/* the result has the common type of both operands */
+			if (!r1.sign || !r2.sign) {
+				if (r1.sign) r1.u.uv = big_s_to_u(r1.u.sv);
+				if (r2.sign) r2.u.uv = big_s_to_u(r2.u.sv);
+				r1.sign = r2.sign = 0;
+			}
 			if (do_eval) {
 				if (qv) top = r1; else top = r2;
+			} else {
+				top.sign = r1.sign;
 			}
 			goto eval_loop;
 		}
-- 
2.43.0


From b1413a5ea2e67a4fdea5451b837430010f574a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 20/76] fix: ucpp: escape quotes within character constants
 when stringifying

---
 v0100/ucpp/macro.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 56db94c..fd85c16 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -935,24 +935,20 @@ tokenize_error:
 static inline char *stringify_string(char *x)
 {
 	size_t l;
-	int i, inside_str = 0, inside_cc = 0, must_quote, has_quoted = 0;
+	int i, inside_str, inside_cc, must_quote, has_quoted;
 	char *y, *d = NULL;
 
 	for (i = 0; i < 2; i ++) {
+		inside_str = inside_cc = has_quoted = 0;
 		if (i) d[0] = '"';
 		for (l = 1, y = x; *y; y ++, l ++) {
 			must_quote = 0;
-			if (inside_cc) {
-				if (*y == '\\') {
-					must_quote = 1;
-					has_quoted = 1;
-				} else if (!has_quoted && *y == '\'')
-					inside_cc = 0;
-			} else if (inside_str) {
+			if (inside_cc || inside_str) {
 				if (*y == '"' || *y == '\\') must_quote = 1;
-				if (*y == '\\') has_quoted = 1;
-				else if (!has_quoted && *y == '"')
-					inside_str = 0;
+				if (has_quoted) has_quoted = 0;
+				else if (*y == '\\') has_quoted = 1;
+				else if (*y == (inside_cc ? '\'' : '"'))
+					inside_cc = inside_str = 0;
 			} else if (*y == '"') {
 				inside_str = 1;
 				must_quote = 1;
-- 
2.43.0


From 308366f36f739bb989c87df14f76af90ecdc3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 21/76] fix: ucpp: a # following a macro name on its line
 begins no directive

---
 v0100/ucpp/cpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 5a0946c..b147a3a 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2032,6 +2032,9 @@ int cpp(struct lexer_state *ls)
 			if ((m = get_macro(ls->ctok->name)) != 0) {
 				int x;
 
+				/* what follows the name is not at the
+				   beginning of the line */
+				ls->ltwnl = 0;
 				x = substitute_macro(ls, m, 0, 1, 0,
 					ls->ctok->line);
 				if (!(ls->flags & LEXER))
-- 
2.43.0


From 08431e4b60c29e2aff53c541726852ec4c34a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 22/76] fix: ucpp: exit with an error status after an
 unterminated #if, string or comment

---
 v0100/ucpp/cpp.c   | 7 ++++---
 v0100/ucpp/lexer.c | 7 +++++++
 v0100/ucpp/ucppi.h | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index b147a3a..753d125 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1991,6 +1991,7 @@ int cpp(struct lexer_state *ls)
 		if (ls->ifnest) {
 			error(ls->line, "unterminated #if construction "
 				"(depth %ld)", ls->ifnest);
+			lexer_error = 1;
 			r = CPPERR_NEST;
 		}
 		if (ls_depth == 0) return CPPERR_EOF;
@@ -2126,8 +2127,7 @@ int lex(struct lexer_state *ls)
 
 /*
  * check_cpp_errors() must be called when the end of input is reached;
- * it checks pending errors due to truncated constructs (actually none,
- * this is reserved for future evolutions).
+ * it checks pending errors due to truncated constructs.
  */
 int check_cpp_errors(struct lexer_state *ls)
 {
@@ -2142,7 +2142,7 @@ int check_cpp_errors(struct lexer_state *ls)
 #endif
 	if ((ls->flags & WARN_TRIGRAPHS) && ls->count_trigraphs)
 		warning(0, "%ld trigraph(s) encountered", ls->count_trigraphs);
-	return 0;
+	return lexer_error;
 }
 
 /*
@@ -2263,6 +2263,7 @@ void wipeout(void)
 	found_files_sys_init_done = 0;
 	wipe_macros();
 	wipe_assertions();
+	lexer_error = 0;
 }
 
 #ifdef STAND_ALONE
diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index 6d0b0f5..e97da24 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -66,6 +66,9 @@
 #define PUT(x)		((x) | 1024)
 #define ttPUT(x)	((x) & 1024)
 
+/* set once an error has ended the reading of a file early */
+int lexer_error = 0;
+
 /* order is important */
 enum {
 	S_START, S_SPACE, S_BANG, S_STRING, S_STRING2, S_COLON,
@@ -877,6 +880,7 @@ static inline int read_token(struct lexer_state *ls)
 		case S_ILL:
 			if (ls->flags & CCHARSET) {
 				error(ls->line, "illegal character '%c'", c);
+				lexer_error = 1;
 				return 1;
 			}
 			nstat = PUT(STO(BUNCH));
@@ -901,6 +905,7 @@ static inline int read_token(struct lexer_state *ls)
 			break;
 		case S_BEHEAD:
 			error(l, "unfinished string at end of line");
+			lexer_error = 1;
 			return 1;
 		case S_DECAY:
 			warning(l, "unterminated // comment");
@@ -908,9 +913,11 @@ static inline int read_token(struct lexer_state *ls)
 			break;
 		case S_TRUNC:
 			error(l, "truncated token");
+			lexer_error = 1;
 			return 1;
 		case S_TRUNCC:
 			error(l, "truncated comment");
+			lexer_error = 1;
 			return 1;
 #ifdef AUDIT
 		case S_OUCH:
diff --git a/v0100/ucpp/ucppi.h b/v0100/ucpp/ucppi.h
index ce4df74..80e9763 100644
--- a/v0100/ucpp/ucppi.h
+++ b/v0100/ucpp/ucppi.h
@@ -142,6 +142,7 @@ void wipe_macros(void);
 
 extern struct lexer_state dsharp_lexer;
 extern char compile_time[], compile_date[];
+extern int lexer_error;
 #ifdef PRAGMA_TOKENIZE
 extern struct lexer_state tokenize_lexer;
 #endif
-- 
2.43.0


From 8a1906e5e8d93eaf8e6d9240d5115e893b01bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 23/76] fix: ucpp: diagnose a missing argument after -I, -J, -D
 and -U

---
 v0100/ucpp/cpp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 753d125..f498421 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2409,10 +2409,13 @@ static int parse_opt(int argc, char *argv[], struct lexer_state *ls)
 			print_asserts = 1;
 		} else if (!strcmp(argv[i], "-zI")) {
 			with_std_incpath = 0;
-		} else if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "-J")) {
-			i ++;
-		} else if (!strcmp(argv[i], "-D") || !strcmp(argv[i], "-U")) {
-			i ++;
+		} else if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "-J")
+			|| !strcmp(argv[i], "-D") || !strcmp(argv[i], "-U")) {
+			if ((++ i) >= argc) {
+				error(-1, "missing argument after %s",
+					argv[i - 1]);
+				return 2;
+			}
 		} else if (!strcmp(argv[i], "-o")) {
 			if ((++ i) >= argc) {
 				error(-1, "missing filename after -o");
-- 
2.43.0


From 6c28c957c81a1e919b8740db3aa2c419df8a7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 24/76] fix: ucpp: no trap on the remainder of the lowest
 number by -1 in #if

---
 v0100/ucpp/arith.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/arith.c b/v0100/ucpp/arith.c
index 7116398..4937f09 100644
--- a/v0100/ucpp/arith.c
+++ b/v0100/ucpp/arith.c
@@ -656,11 +656,13 @@ ARITH_DECL_BI_SS_S(slash)
 }
 
 /*
- * Only division by 0 needs to be checked.
+ * Only division by 0 is an error. The remainder of a division by -1 is
+ * always 0, but computing it may trap when the quotient overflows.
  */
 ARITH_DECL_BI_SS_S(pct)
 {
 	if (y == 0) ARITH_ERROR(ARITH_EXCEP_PCT_D);
+	if (y == (arith_s)(-1)) return 0;
 	return x % y;
 }
 
-- 
2.43.0


From f49bb932f4f01319514094cc2a52f70f552b97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 25/76] fix: ucpp: compute overflowing #if operations without
 undefined arithmetic

---
 v0100/ucpp/arith.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/v0100/ucpp/arith.c b/v0100/ucpp/arith.c
index 4937f09..96267bb 100644
--- a/v0100/ucpp/arith.c
+++ b/v0100/ucpp/arith.c
@@ -264,6 +264,7 @@ ARITH_DECL_BI_UI_U(lsh)
 	else if (y < 0)
 		ARITH_WARNING(ARITH_EXCEP_LSH_C);
 #endif
+	if (y < 0 || y >= NATIVE_UNSIGNED_BITS) return 0;
 	return x << y;
 }
 
@@ -275,6 +276,7 @@ ARITH_DECL_BI_UI_U(rsh)
 	else if (y < 0)
 		ARITH_WARNING(ARITH_EXCEP_RSH_C);
 #endif
+	if (y < 0 || y >= NATIVE_UNSIGNED_BITS) return 0;
 	return x >> y;
 }
 
@@ -336,7 +338,7 @@ ARITH_DECL_MONO_S_S(neg)
 		ARITH_WARNING(ARITH_EXCEP_NEG_O);
 #endif
 #endif
-	return -x;
+	return (arith_s)(-(arith_u)x);
 }
 
 ARITH_DECL_MONO_S_S(not)
@@ -414,7 +416,7 @@ ARITH_DECL_BI_SS_S(plus)
 #endif
 		)) ARITH_WARNING(ARITH_EXCEP_PLUS_U);
 #endif
-	return x + y;
+	return (arith_s)((arith_u)x + (arith_u)y);
 }
 
 /*
@@ -464,7 +466,7 @@ ARITH_DECL_BI_SS_S(minus)
 #endif
 	)) ARITH_WARNING(ARITH_EXCEP_MINUS_U);
 #endif
-	return x - y;
+	return (arith_s)((arith_u)x - (arith_u)y);
 }
 
 ARITH_DECL_BI_SS_I(lt) { return x < y; }
@@ -564,7 +566,8 @@ ARITH_DECL_BI_SI_S(lsh)
 	else if (x > 0 && ((((arith_u)x << y) & NATIVE_SIGNED_MAX) >> y)
 		!= (arith_u)x) ARITH_WARNING(ARITH_EXCEP_LSH_O);
 #endif
-	return x << y;
+	if (y < 0 || y >= NATIVE_UNSIGNED_BITS) return 0;
+	return (arith_s)((arith_u)x << y);
 }
 
 /*
@@ -588,6 +591,7 @@ ARITH_DECL_BI_SI_S(rsh)
 		) ARITH_WARNING(ARITH_EXCEP_RSH_W);
 	else if (x < 0) ARITH_WARNING(ARITH_EXCEP_RSH_N);
 #endif
+	if (y < 0 || y >= NATIVE_UNSIGNED_BITS) return x < 0 ? -1 : 0;
 	return x >> y;
 }
 
@@ -633,7 +637,7 @@ ARITH_DECL_BI_SS_S(star)
 		ARITH_WARNING(ARITH_EXCEP_STAR_U);
 	}
 #endif
-	return x * y;
+	return (arith_s)((arith_u)x * (arith_u)y);
 }
 
 /*
-- 
2.43.0


From 96af2d1f0bd48c6974b8dbb18abfb7c454757c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 26/76] fix: ucpp: an unknown directive is an error for the
 exit status too

---
 v0100/ucpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index f498421..058e8f7 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1913,6 +1913,7 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 		if (ls->flags & FAIL_SHARP) {
 			error(l, "unknown cpp directive '#%s'",
 				ls->ctok->name);
+			ret = 1;
 			goto handle_warp_ign;
 		} else {
 			struct token u;
-- 
2.43.0


From e9aff13a91d510c50f414942fe727c9ff60a7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 27/76] fix: ucpp: no silent failure on #! and no silence on
 any other #<punctuator> in line 1

---
 v0100/ucpp/cpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 058e8f7..fa27a3c 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1692,9 +1692,10 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 			if (ls->flags & FAIL_SHARP) {
                                 /* LPS 20050602 - ignores '#!' if on the first line */
                                 if( ( l == 1 ) &&
+                                    ( t == LNOT ) &&
                                     ( ls->condcomp ) )
                                 {
-					ret = 1;
+					ret = 0;
                                 }
                                 else
                                 /* LPS 20050602 */
-- 
2.43.0


From 8e0e2aaf7ec917252354294343593a57207f63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 28/76] fix: ucpp: no access beyond the flags of conditionals
 nested too deep

---
 v0100/ucpp/cpp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index fa27a3c..f2f491e 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1650,13 +1650,14 @@ static void handle_pragma(struct lexer_state *ls)
  */
 static int handle_cpp(struct lexer_state *ls, int sharp_type)
 {
+/* conditionals nested deeper than the limit have no flag to keep */
 #define condfset(x)	do { \
-		ls->condf[(x) / 32] |= 1UL << ((x) % 32); \
+		if ((x) < 64) ls->condf[(x) / 32] |= 1UL << ((x) % 32); \
 	} while (0)
 #define condfclr(x)	do { \
-		ls->condf[(x) / 32] &= ~(1UL << ((x) % 32)); \
+		if ((x) < 64) ls->condf[(x) / 32] &= ~(1UL << ((x) % 32)); \
 	} while (0)
-#define condfval(x)	((ls->condf[(x) / 32] & (1UL << ((x) % 32))) != 0)
+#define condfval(x)	((x) < 64 && (ls->condf[(x) / 32] & (1UL << ((x) % 32))) != 0)
 
 	long l = ls->line;
 	unsigned long save_flags = ls->flags;
-- 
2.43.0


From 8bfb5a17ada8d1d9fb719d36df7b5be049c4d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 29/76] fix: ucpp: a # ending the file is a null directive

---
 v0100/ucpp/cpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index f2f491e..7d065fe 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1928,9 +1928,11 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 			if (ls->flags & WARN_ANNOYING) {
 				warning(l, "rogue '#' dumped");
 			}
+			return 1;
 		}
 	}
-	return 1;
+	/* the file ended right after the '#': a null directive */
+	goto handle_exit2;
 
 handle_warp_ign:
 	while (!next_token(ls)) if (ls->ctok->type == NEWLINE) break;
-- 
2.43.0


From 969b59c58418e3d814748fc4821bc005d71b085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 30/76] fix: ucpp: #define ending the file amid its parameters
 or repeating a macro

---
 v0100/ucpp/macro.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index fd85c16..f1148f9 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -375,7 +375,7 @@ int handle_define(struct lexer_state *ls)
 #define mval	(m->val)
 #endif
 	}
-	if (next_token(ls)) goto define_end;
+	if (next_token(ls)) goto define_body_end;
 	/*
 	 * Check if the token immediately following the macro name is
 	 * a left parenthesis; if so, then this is a macro with arguments.
@@ -470,6 +470,11 @@ int handle_define(struct lexer_state *ls)
 			error(l, "invalid macro argument");
 			goto warp_error;
 		}
+		if (ls->ctok->type != RPAR) {
+			/* the file ended before the argument list did */
+			error(l, "truncated macro definition");
+			goto define_error;
+		}
 		if (!redef) {
 			for (i = 1; i < narg; i ++) for (j = 0; j < i; j ++)
 				if (!strcmp(m->arg[i], m->arg[j])) {
@@ -584,6 +589,7 @@ int handle_define(struct lexer_state *ls)
 		}
 	}
 
+define_body_end:
 	if (redef) {
 #ifdef LOW_MEM
 		if (n->cval.rp < n->cval.length) goto redef_error_2;
@@ -596,7 +602,6 @@ int handle_define(struct lexer_state *ls)
 	/* now we have the complete macro; perform some checks about
 	   the operators # and ##, and, if everything is ok,
 	   store the macro into the hash table */
-define_end:
 #ifdef SEMPER_FIDELIS
 	if (mval.nt && mval.t[mval.nt - 1].type == OPT_NONE) {
 #else
-- 
2.43.0


From 6c7fbc04ca73bd4d512456d04145ed3bbbbb6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 31/76] fix: ucpp: comparison of a macro redefinition with
 trailing space or 128 parameters

---
 v0100/ucpp/macro.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index f1148f9..0281698 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -557,17 +557,18 @@ int handle_define(struct lexer_state *ls)
 				unsigned anum = n->cval.t[n->cval.rp + 1];
 
 				if (anum >= 128U) anum = ((anum & 127U) << 8)
-					| m->cval.t[n->cval.rp + 2];
+					| n->cval.t[n->cval.rp + 2];
 				if (anum != (unsigned)t.line) goto redef_error;
 			} else if (S_TOKEN(t.type) && strcmp(ls->ctok->name,
 				   (char *)(n->cval.t + n->cval.rp + 1))) {
 				goto redef_error;
 			}
+			if (n->cval.rp >= n->cval.length) continue;
 			tt = n->cval.t[n->cval.rp ++];
 			if (S_TOKEN(tt)) n->cval.rp += 1
 				+ strlen((char *)(n->cval.t + n->cval.rp));
 			else if (tt == MACROARG) {
-				if (n->cval.t[++ n->cval.rp] >= 128)
+				if (n->cval.t[n->cval.rp ++] >= 128)
 					n->cval.rp ++;
 			}
 #else
-- 
2.43.0


From 2229e0629433f9d06967411e75b9c8a4c4ba7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 32/76] fix: ucpp: #include and #line without tokens or with an
 unfinished macro call

---
 v0100/ucpp/cpp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 7d065fe..e37a679 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1304,14 +1304,14 @@ include_macro2:
 #endif
 					ct->line)) {
 					ls->output_fifo = save_tf;
-					return -1;
+					return 1;
 				}
 				continue;
 			}
 		}
 		aol(tf2.t, tf2.nt, *ct, TOKEN_LIST_MEMG);
 	}
-	freemem(tf.t);
+	if (tf.nt) freemem(tf.t);
 	ls->output_fifo = save_tf;
 	for (x = 0; (size_t)x < tf2.nt && ttWHI(tf2.t[x].type); x ++);
 	for (y = tf2.nt - 1; y >= 0 && ttWHI(tf2.t[y].type); y --);
@@ -1444,14 +1444,14 @@ static int handle_line(struct lexer_state *ls, unsigned long flags)
 #endif
 					ct->line)) {
 					ls->output_fifo = save_tf;
-					return -1;
+					return 1;
 				}
 				continue;
 			}
 		}
 		aol(tf2.t, tf2.nt, *ct, TOKEN_LIST_MEMG);
 	}
-	freemem(tf.t);
+	if (tf.nt) freemem(tf.t);
 	for (tf2.art = 0; tf2.art < tf2.nt && ttWHI(tf2.t[tf2.art].type);
 		tf2.art ++);
 	ls->output_fifo = save_tf;
-- 
2.43.0


From 8f06b29d969636f0c4dbdd111b39f459f7bec335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 33/76] fix: ucpp: a malformed #assert or #unassert is an error
 for the exit status

---
 v0100/ucpp/assert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/assert.c b/v0100/ucpp/assert.c
index 5ab392d..427f780 100644
--- a/v0100/ucpp/assert.c
+++ b/v0100/ucpp/assert.c
@@ -132,7 +132,7 @@ int handle_assert(struct lexer_state *ls)
 	struct token_fifo *atl = 0;
 	struct assert *a = NULL;
 	char *aname = NULL;
-	int ret = -1;
+	int ret = 1;
 	long l = ls->line;
 	int nnp;
 	size_t i;
@@ -245,7 +245,7 @@ int handle_unassert(struct lexer_state *ls)
 	struct token t = { 0 };
 	struct token_fifo atl;
 	struct assert *a;
-	int ret = -1;
+	int ret = 1;
 	long l = ls->line;
 	int nnp;
 	size_t i;
-- 
2.43.0


From 5ceb4802db43c5092c958df2030097ed2ca560fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 34/76] fix: ucpp: the right line in the errors about a missing
 macro name

---
 v0100/ucpp/macro.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 0281698..197b9a9 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1786,6 +1786,8 @@ int undef_macro(struct lexer_state *ls, char *def)
  */
 int handle_ifdef(struct lexer_state *ls)
 {
+	long l = ls->line;
+
 	while (!next_token(ls)) {
 		int tgd = 1;
 
@@ -1812,7 +1814,7 @@ int handle_ifdef(struct lexer_state *ls)
 			}
 		return -1;
 	}
-	error(ls->line, "unfinished #ifdef");
+	error(l, "unfinished #ifdef");
 	return -1;
 }
 
@@ -1823,6 +1825,8 @@ int handle_ifdef(struct lexer_state *ls)
  */
 int handle_undef(struct lexer_state *ls)
 {
+	long l = ls->line;
+
 	while (!next_token(ls)) {
 		if (ls->ctok->type == NEWLINE) break;
 		if (ttMWS(ls->ctok->type)) continue;
@@ -1856,7 +1860,7 @@ int handle_undef(struct lexer_state *ls)
 		while (!next_token(ls) && ls->ctok->type != NEWLINE);
 		return 1;
 	}
-	error(ls->line, "unfinished #undef");
+	error(l, "unfinished #undef");
 	return 1;
 }
 
@@ -1866,6 +1870,8 @@ int handle_undef(struct lexer_state *ls)
  */
 int handle_ifndef(struct lexer_state *ls)
 {
+	long l = ls->line;
+
 	while (!next_token(ls)) {
 		int tgd = 1;
 
@@ -1897,7 +1903,7 @@ int handle_ifndef(struct lexer_state *ls)
 			}
 		return -1;
 	}
-	error(ls->line, "unfinished #ifndef");
+	error(l, "unfinished #ifndef");
 	return -1;
 }
 
-- 
2.43.0


From 0eb6d514017b914b084d1054fafc18299774b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 35/76] fix: ucpp: the include guard is the name right after
 #ifndef

---
 v0100/ucpp/macro.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 197b9a9..67e5883 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1880,6 +1880,10 @@ int handle_ifndef(struct lexer_state *ls)
 		if (ls->ctok->type == NAME) {
 			int x = (HTT_get(&macros, ls->ctok->name) == 0);
 
+			if (protect_detect.state == 1) {
+				protect_detect.state = 2;
+				protect_detect.macro = sdup(ls->ctok->name);
+			}
 			while (!next_token(ls) && ls->ctok->type != NEWLINE)
 				if (tgd && !ttWHI(ls->ctok->type)
 					&& (ls->flags & WARN_STANDARD)) {
@@ -1887,10 +1891,6 @@ int handle_ifndef(struct lexer_state *ls)
 						"in #ifndef");
 					tgd = 0;
 				}
-			if (protect_detect.state == 1) {
-				protect_detect.state = 2;
-				protect_detect.macro = sdup(ls->ctok->name);
-			}
 			return x;
 		}
 		error(ls->line, "illegal macro name for #ifndef");
-- 
2.43.0


From e743785f4303ab84fc470aa7cbcfad87e26d2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 36/76] fix: ucpp: diagnose #undef defined

---
 v0100/ucpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 67e5883..dd9ee76 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1834,7 +1834,7 @@ int handle_undef(struct lexer_state *ls)
 			struct macro *m = HTT_get(&macros, ls->ctok->name);
 			int tgd = 1;
 
-			if (m != 0) {
+			if (m != 0 || !strcmp(ls->ctok->name, "defined")) {
 				if (check_special_macro(ls->ctok->name)) {
 					error(ls->line, "trying to undef "
 						"special macro %s",
-- 
2.43.0


From d0bc9d191030c4f83ba2ca794a7dda4046501d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 37/76] fix: ucpp: diagnose 0x without digits in #if

---
 v0100/ucpp/eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index c4f9c74..57ae908 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -315,6 +315,11 @@ static ppval pp_strtoconst(char *refc)
 		c ++;
 		if (*c == 'x' || *c == 'X') {
 			c ++;
+			if (!HEXAD(*c)) {
+				error(eval_line, "invalid integer constant "
+					"'%s'", refc);
+				throw(eval_exception);
+			}
 			d = big_u_hexconst(c, &ru, &rs, &sp);
 		} else {
 			d = big_u_octconst(c, &ru, &rs, &sp);
-- 
2.43.0


From 22b9c33a669d6d171294c135dd3bba87c4b10348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 38/76] fix: ucpp: a null character in a character constant of
 #if led beyond the token

---
 v0100/ucpp/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 57ae908..82bdb3a 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -273,6 +273,9 @@ static unsigned long pp_char(char *c, char *refc)
 	} else if (*c == '\'') {
 		error(eval_line, "empty character constant");
 		throw(eval_exception);
+	} else if (!*c) {
+		error(eval_line, "null character in character constant");
+		throw(eval_exception);
 	} else {
 		r = *((unsigned char *)(c ++));
 	}
-- 
2.43.0


From 2f0c37fe21eb7054b290477356921f39cbbdfa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 39/76] fix: ucpp: diagnose defined without a macro name in #if

---
 v0100/ucpp/cpp.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index e37a679..771a850 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -974,27 +974,26 @@ static int handle_if(struct lexer_state *ls)
 
 		ct = tf.t + (tf.art ++);
 		if (ct->type == NAME && !strcmp(ct->name, "defined")) {
-			if (tf.art >= tf.nt) goto store_token;
+			if (tf.art >= tf.nt) goto defined_error;
 			nidx = tf.art;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
 			if (tf.t[nidx].type == NAME) {
 				eidx = nidx;
 				goto check_macro;
 			}
-			if (tf.t[nidx].type != LPAR) goto store_token;
-			if (++ nidx >= tf.nt) goto store_token;
+			if (tf.t[nidx].type != LPAR) goto defined_error;
+			if (++ nidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
-			if (tf.t[nidx].type != NAME) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
+			if (tf.t[nidx].type != NAME) goto defined_error;
 			eidx = nidx + 1;
-			if (eidx >= tf.nt) goto store_token;
+			if (eidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[eidx].type))
-				if (++ eidx >= tf.nt) goto store_token;
-			if (tf.t[eidx].type != RPAR) goto store_token;
+				if (++ eidx >= tf.nt) goto defined_error;
+			if (tf.t[eidx].type != RPAR) goto defined_error;
 			goto check_macro;
 		}
-	store_token:
 		aol(tf1.t, tf1.nt, *ct, TOKEN_LIST_MEMG);
 		continue;
 
@@ -1141,6 +1140,12 @@ error1:
 	if (tf1.nt) freemem(tf1.t);
 	if (tf2.nt) freemem(tf2.t);
 	return -1;
+
+defined_error:
+	error(l, "'defined' without a macro name");
+	freemem(tf.t);
+	if (tf1.nt) freemem(tf1.t);
+	return -1;
 }
 
 static int left_angle(int t)
-- 
2.43.0


From ee26c47c58a2a72e398c6ae3bf0918a57c0722c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 40/76] fix: ucpp: -s dumps an unknown directive once and
 without failing

---
 v0100/ucpp/cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 771a850..8e975d6 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1933,7 +1933,7 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 			if (ls->flags & WARN_ANNOYING) {
 				warning(l, "rogue '#' dumped");
 			}
-			return 1;
+			goto handle_exit3;
 		}
 	}
 	/* the file ended right after the '#': a null directive */
-- 
2.43.0


From 20a09c8f14e59a93933d25d79bce2959652ebfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 41/76] fix: ucpp: diagnose redefinition with another number of
 parameters

---
 v0100/ucpp/macro.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index dd9ee76..9515584 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -375,7 +375,11 @@ int handle_define(struct lexer_state *ls)
 #define mval	(m->val)
 #endif
 	}
-	if (next_token(ls)) goto define_body_end;
+	if (next_token(ls)) {
+		/* the file ended right after the name */
+		if (redef && n->narg >= 0) goto redef_error_2;
+		goto define_body_end;
+	}
 	/*
 	 * Check if the token immediately following the macro name is
 	 * a left parenthesis; if so, then this is a macro with arguments.
@@ -461,7 +465,8 @@ int handle_define(struct lexer_state *ls)
 					error(l, "void macro argument");
 					goto warp_error;
 				}
-				if (redef && n->vaarg && !saw_mdots)
+				if (redef && (n->narg != narg
+					|| (n->vaarg && !saw_mdots)))
 					goto redef_error;
 				break;
 			} else if (ttMWS(ls->ctok->type)) {
@@ -489,6 +494,7 @@ int handle_define(struct lexer_state *ls)
 			warning(ls->line, "identifier not followed by "
 				"whitespace in #define");
 		ls->flags |= READ_AGAIN;
+		if (redef && n->narg >= 0) goto redef_error;
 		narg = 0;
 	}
 	if (redef) nt = 0;
-- 
2.43.0


From aa0a46f61aa145dbba4dacbfffb5bea1f5f13fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 42/76] fix: smlrl -unreal: relocations of non-allocated
 sections are not listed in .relod

---
 v0100/smlrl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 6c2dc37..ff65e5d 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1493,7 +1493,9 @@ void FindAllSections(void)
       if (!(pSect->h.sh_flags & SHF_ALLOC))
       {
         if (OutputFormat == FormatDosExeUnreal &&
-            pSect->h.sh_type == SHT_REL)
+            pSect->h.sh_type == SHT_REL &&
+            pSect->h.sh_info < pMeta->SectionCnt &&
+            (pMeta->pSections[pSect->h.sh_info].h.sh_flags & SHF_ALLOC))
         {
           // Calculate the size of the new .relod section (count only 32-bit non-PC-relative relocations).
           uint32 relIdx;
@@ -2249,7 +2251,9 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
           for (sectIdx = 0; sectIdx < pMeta->SectionCnt; sectIdx++)
           {
             tElfSection* pRelSect = &pMeta->pSections[sectIdx];
-            if (pRelSect->h.sh_type == SHT_REL)
+            if (pRelSect->h.sh_type == SHT_REL &&
+                pRelSect->h.sh_info < pMeta->SectionCnt &&
+                (pMeta->pSections[pRelSect->h.sh_info].h.sh_flags & SHF_ALLOC))
             {
               // Handle only 32-bit non-PC-relative relocations.
               uint32 relIdx;
-- 
2.43.0


From 84afa9eb3ccf0cfab874950dd2096460ff7db092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 43/76] fix: smlrl: no crash when the entry point names a
 section boundary and nothing is linked

---
 v0100/smlrl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index ff65e5d..64434af 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1547,7 +1547,8 @@ void FindAllSections(void)
   }
 
   // Sort sections by attributes/names
-  qsort(pSectDescrs, SectCnt, sizeof *pSectDescrs, &SectDescCmp);
+  if (SectCnt)
+    qsort(pSectDescrs, SectCnt, sizeof *pSectDescrs, &SectDescCmp);
 
   if (verbose)
   {
@@ -1557,7 +1558,7 @@ void FindAllSections(void)
     puts("");
   }
 
-  if (!(pSectDescrs[0].Attrs & SHF_EXECINSTR))
+  if (!SectCnt || !(pSectDescrs[0].Attrs & SHF_EXECINSTR))
     error("Executable section not found\n");
 
   for (i = 0; i < SectCnt; i++)
-- 
2.43.0


From 0a03e5eac2e5f1d4606bedb837c5bbde4189d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 44/76] fix: smlrl -aout: report section alignment larger than
 the page size

---
 v0100/smlrl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 64434af..c38c980 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -2127,6 +2127,7 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
             break;
           case FormatWinPe32:
           case FormatElf32:
+          case FormatAout:
           case FormatMach32:
             if (align > 4096)
               error("Section alignment larger than page size (4KB)\n");
-- 
2.43.0


From 171fedc7a5c3f419bdadbe7d88877c0c0fe44e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 45/76] fix: smlrl: leave out non-allocated sections that share
 a name with an allocated one

---
 v0100/smlrl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index c38c980..a52f038 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -2089,6 +2089,8 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
       {
         tElfSection* pSect = &pMeta->pSections[sectIdx];
         tElfSection* pRelSect = NULL;
+        if (!(pSect->h.sh_flags & SHF_ALLOC))
+          continue;
         if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
@@ -2557,6 +2559,8 @@ void RwAout(void)
         tElfSection* pRelSect = NULL;
         if (pSect->h.sh_type != SHT_PROGBITS)
           continue;
+        if (!(pSect->h.sh_flags & SHF_ALLOC))
+          continue;
         if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
@@ -3281,7 +3285,8 @@ void RwPe(void)
             tElfSection* pSect = &pMeta->pSections[sectIdx];
             tElfSection* pRelSect = NULL;
             const char* sectName;
-            if (pSect->h.sh_type != SHT_PROGBITS)
+            if (pSect->h.sh_type != SHT_PROGBITS ||
+                !(pSect->h.sh_flags & SHF_ALLOC))
               continue;
             if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
               continue;
-- 
2.43.0


From df661fc37d43f4de72c320eb61c7354a3a80b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 46/76] fix: smlrl: report references to absolute symbols
 instead of indexing the sections with SHN_ABS

---
 v0100/smlrl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index a52f038..1086fd6 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1658,6 +1658,8 @@ uint32 FindSymbolAddress(const char* SymName)
           tElfSection* pSect;
           if (pSym->st_shndx == SHN_COMMON)
             error("Common symbols unsupported\n");
+          if (pSym->st_shndx >= pMeta->SectionCnt)
+            error("Absolute symbols unsupported\n");
           pSect = &pMeta->pSections[pSym->st_shndx];
           addr = pSect->OutOffset + pSym->st_value;
           return addr;
@@ -1723,6 +1725,8 @@ void Relocate(tElfMeta* pMeta, tElfSection* pRelSect, Elf32_Rel* pRel, unsigned
 #ifdef SUPPORT_LOCAL_RELS
     else if ((pSym->st_info >> 4) == STB_LOCAL)
     {
+      if (pSym->st_shndx >= pMeta->SectionCnt)
+        error("Absolute symbols unsupported\n");
       symAddr = pMeta->pSections[pSym->st_shndx].OutOffset + pSym->st_value;
     }
 #endif
@@ -3596,6 +3600,7 @@ void GenerateMap(void)
           // Check exported symbols
           if ((pSym->st_info >> 4) == STB_GLOBAL &&
               pSym->st_shndx &&
+              pSym->st_shndx < pMeta->SectionCnt &&
               pSym->st_name)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
-- 
2.43.0


From c2eea3e42d869ff6048be866b073f2b92938c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 47/76] fix: an error inside the call of a macro without
 parameters crashed the preprocessor

---
 v0100/ucpp/macro.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 9515584..f882b99 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -771,6 +771,9 @@ static int collect_arguments(struct lexer_state *ls, struct token_fifo *tfi,
 			npar = 1;
 			goto too_many_args;
 		}
+		/* there is no list to put further tokens into */
+		error(begin_line, "unfinished macro call");
+		return 4;
 	}
 	while (!unravel(ls)) {
 		struct token t = { 0 };
-- 
2.43.0


From b9602709f2e6fb2d719d136a355742f441229a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:18 +0000
Subject: [PATCH 48/76] fix: math functions didn't set errno to ERANGE when
 their result overflowed

---
 v0100/srclib/cosh.c  |  3 +++
 v0100/srclib/exp.c   |  2 ++
 v0100/srclib/exp2.c  |  5 +++++
 v0100/srclib/expm1.c |  2 ++
 v0100/srclib/hypot.c |  7 +++++--
 v0100/srclib/ldexp.c | 10 ++++++++--
 v0100/srclib/pow.c   | 12 ++++++++++--
 v0100/srclib/sinh.c  |  2 ++
 8 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/v0100/srclib/cosh.c b/v0100/srclib/cosh.c
index 8e6b528..ffb30e9 100644
--- a/v0100/srclib/cosh.c
+++ b/v0100/srclib/cosh.c
@@ -9,6 +9,9 @@
 
 float coshf(float x)
 {
+  x = fabsf(x);
+  if (x > 128 && x != INFINITY)
+    x = 128; // overflows anyway, but mustn't become INFINITY below
   x = x * 1.44269504f/*log2(e)*/;
   return exp2f(x - 1) + exp2f(-x - 1);
 }
diff --git a/v0100/srclib/exp.c b/v0100/srclib/exp.c
index eea4b9c..e61045d 100644
--- a/v0100/srclib/exp.c
+++ b/v0100/srclib/exp.c
@@ -9,6 +9,8 @@
 
 float expf(float x)
 {
+  if (x > 128 && x != INFINITY)
+    x = 128; // overflows anyway, but mustn't become INFINITY below
   return exp2f(x * 1.44269504f/*log2(e)*/);
 }
 
diff --git a/v0100/srclib/exp2.c b/v0100/srclib/exp2.c
index d112bc4..4dcce7f 100644
--- a/v0100/srclib/exp2.c
+++ b/v0100/srclib/exp2.c
@@ -7,6 +7,7 @@
 
 #include <math.h>
 #include <float.h>
+#include <errno.h>
 
 #ifdef __HUGE__
 #define __HUGE_OR_UNREAL__
@@ -41,7 +42,11 @@ float exp2f(float x)
   if (x < FLT_MIN_EXP - FLT_MANT_DIG - 1)
     return 0;
   if (x >= FLT_MAX_EXP)
+  {
+    if (x != INFINITY)
+      errno = ERANGE;
     return INFINITY;
+  }
   if (x != x)
     return x; // NAN
   x = f2xm1p1(modff(x, &i));
diff --git a/v0100/srclib/expm1.c b/v0100/srclib/expm1.c
index 0a075f6..076baa0 100644
--- a/v0100/srclib/expm1.c
+++ b/v0100/srclib/expm1.c
@@ -37,6 +37,8 @@ float expm1f(float x)
   float i;
   if (x == 0)
     return x; // preserve sign of 0
+  if (x > 128 && x != INFINITY)
+    x = 128; // overflows anyway, but mustn't become INFINITY below
   x = x * 1.44269504f/*log2(e)*/;
   if (x <= 26)
   {
diff --git a/v0100/srclib/hypot.c b/v0100/srclib/hypot.c
index 1eb61bd..367df13 100644
--- a/v0100/srclib/hypot.c
+++ b/v0100/srclib/hypot.c
@@ -6,6 +6,7 @@
 #ifdef __SMALLER_C_32__
 
 #include <math.h>
+#include <errno.h>
 
 #ifdef __HUGE__
 #define __HUGE_OR_UNREAL__
@@ -47,9 +48,11 @@ float hypotf(float x, float y)
   "fmul st0, st0\n"
   "faddp\n"
   "fsqrt\n"
-  "fstp dword ["xbp"+8]\n"
-  "mov  eax, ["xbp"+8]"
+  "fstp dword ["xbp"+8]"
   );
+  if (x == INFINITY) // finite x and y
+    errno = ERANGE;
+  return x;
 }
 
 double hypot(double x, double y)
diff --git a/v0100/srclib/ldexp.c b/v0100/srclib/ldexp.c
index 20902a6..1084f53 100644
--- a/v0100/srclib/ldexp.c
+++ b/v0100/srclib/ldexp.c
@@ -5,6 +5,9 @@
 
 #ifdef __SMALLER_C_32__
 
+#include <math.h>
+#include <errno.h>
+
 /*
 float ldexpf(float value, int e)
 {
@@ -111,15 +114,18 @@ float ldexpf(float value, int e)
 
 float ldexpf(float value, int e)
 {
+  float x = value;
   asm
   (
   "fild  dword ["xbp"+12]\n"
   "fld   dword ["xbp"+8]\n"
   "fscale\n"
   "fstp  st1\n"
-  "fstp  dword ["xbp"+8]\n"
-  "mov   eax, ["xbp"+8]"
+  "fstp  dword ["xbp"+8]"
   );
+  if ((value == INFINITY || value == -INFINITY) && value != x)
+    errno = ERANGE; // finite x
+  return value;
 }
 
 #endif
diff --git a/v0100/srclib/pow.c b/v0100/srclib/pow.c
index 3085ea6..cd5ebd3 100644
--- a/v0100/srclib/pow.c
+++ b/v0100/srclib/pow.c
@@ -6,8 +6,16 @@
 #ifdef __SMALLER_C_32__
 
 #include <math.h>
+#include <float.h>
 #include <errno.h>
 
+static
+float exp2finite(float x)
+{
+  // finite arguments of powf() overflow here, they aren't INFINITY
+  return exp2f((x == INFINITY) ? FLT_MAX : x);
+}
+
 float powf(float x, float y)
 {
   int yint, yoddint;
@@ -64,10 +72,10 @@ float powf(float x, float y)
       errno = EDOM;
       return NAN;
     }
-    y = exp2f(y * log2f(-x));
+    y = exp2finite(y * log2f(-x));
     return yoddint ? -y : y;
   }
-  return exp2f(y * log2f(x));
+  return exp2finite(y * log2f(x));
 }
 
 double pow(double x, double y)
diff --git a/v0100/srclib/sinh.c b/v0100/srclib/sinh.c
index e6df77c..6282e43 100644
--- a/v0100/srclib/sinh.c
+++ b/v0100/srclib/sinh.c
@@ -22,6 +22,8 @@ float sinhf(float x)
   {
     // Special case for fabsf(x) > ~logf(FLT_MAX) to avoid
     // premature overflow of expf(x) to infinity
+    if (x > 128 && x != INFINITY)
+      x = 128; // overflows anyway, but mustn't become INFINITY below
     e = exp2f(x * 1.44269504f/*log2(e)*/ - 1);
   }
   return neg ? -e : e;
-- 
2.43.0


From 71d82d90d117ac55c6586bef658c48666100bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 49/76] fix: system() on DOS changes the first parameter of a
 program it starts directly

---
 v0100/srclib/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/system.c b/v0100/srclib/system.c
index 3477915..0bc0c59 100644
--- a/v0100/srclib/system.c
+++ b/v0100/srclib/system.c
@@ -532,7 +532,8 @@ int system(char* cmd)
     // Convert UNIX current directory prefix ("./") to DOS current directory prefix (".\\") if needed.
     // COMMAND.COM may mistakenly recognize "./foo.exe" as program "." with parameters "/foo.exe",
     // which would be an error anyway.
-    if (params[start] == '.' && params[start+1] == '/')
+    // Leave the parameters of an executable that is started directly as they are.
+    if (comspec != exe && params[start] == '.' && params[start+1] == '/')
       params[start+1] = '\\';
   }
   else
-- 
2.43.0


From a2c8448583b99881a7ed0a1d60bcf9008c0a5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 50/76] fix: smlrc: read errors were taken for the end of the
 input and write errors ignored

---
 v0100/cgmips.c | 14 ++++++++++----
 v0100/cgx86.c  | 18 +++++++++++++-----
 v0100/lb.c     | 16 ++++++++++++++++
 v0100/smlrc.c  | 33 +++++++++++++++++++++++++++++++--
 4 files changed, 70 insertions(+), 11 deletions(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 378db98..44e2f70 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -545,10 +545,14 @@ STATIC
 void GenUpdateFrameSize(void)
 {
   fpos_t pos;
-  fgetpos(OutFile, &pos);
-  fsetpos(OutFile, &GenPrologPos);
+  if (fgetpos(OutFile, &pos) ||
+      fsetpos(OutFile, &GenPrologPos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
   GenWriteFrameSize();
-  fsetpos(OutFile, &pos);
+  if (fsetpos(OutFile, &pos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
 }
 
 STATIC
@@ -580,7 +584,9 @@ void GenFxnProlog(void)
 
   GenLeaf = 1; // will be reset to 0 if a call is generated
 
-  fgetpos(OutFile, &GenPrologPos);
+  if (fgetpos(OutFile, &GenPrologPos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
   GenWriteFrameSize();
 }
 
diff --git a/v0100/cgx86.c b/v0100/cgx86.c
index 3090a29..f3ee0b4 100644
--- a/v0100/cgx86.c
+++ b/v0100/cgx86.c
@@ -879,10 +879,14 @@ STATIC
 void GenUpdateFrameSize(void)
 {
   fpos_t pos;
-  fgetpos(OutFile, &pos);
-  fsetpos(OutFile, &GenPrologPos);
+  if (fgetpos(OutFile, &pos) ||
+      fsetpos(OutFile, &GenPrologPos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
   GenWriteFrameSize();
-  fsetpos(OutFile, &pos);
+  if (fsetpos(OutFile, &pos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
 }
 
 STATIC
@@ -898,7 +902,9 @@ void GenFxnProlog(void)
     GenPrintInstr2Operands(X86InstrMov, 0,
                            X86OpRegBpWord, 0,
                            X86OpRegSpWord, 0);
-  fgetpos(OutFile, &GenPrologPos);
+  if (fgetpos(OutFile, &GenPrologPos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
   GenWriteFrameSize();
 }
 
@@ -979,7 +985,9 @@ void GenIsrProlog(void)
 
   puts2("\tpush\tebp\n"
         "\tmovzx\tebp, sp");
-  fgetpos(OutFile, &GenPrologPos);
+  if (fgetpos(OutFile, &GenPrologPos))
+    //error("Cannot write output file\n");
+    errorFileWrite();
   GenWriteFrameSize();
 }
 
diff --git a/v0100/lb.c b/v0100/lb.c
index fee999d..06f7f35 100644
--- a/v0100/lb.c
+++ b/v0100/lb.c
@@ -1321,6 +1321,7 @@ unsigned char __FileBufs__[MAX_FILES][FILE_BUF_SIZE];
 char __FileBufDirty__[MAX_FILES];
 unsigned __FileBufSize__[MAX_FILES];
 unsigned __FileBufPos__[MAX_FILES];
+unsigned char __FileError__[MAX_FILES];
 
 FILE* fopen(char* name, char* mode)
 {
@@ -1351,6 +1352,7 @@ FILE* fopen(char* name, char* mode)
         __FileBufDirty__[i] = 0;
         __FileBufSize__[i] = 0;
         __FileBufPos__[i] = 0;
+        __FileError__[i] = 0;
         ++__FileCnt__;
         f = (FILE*)(i + 1);
         break;
@@ -1425,7 +1427,11 @@ int fgetc(FILE* stream)
     unsigned sz;
     sz = OsRead(fd, __FileBufs__[i], FILE_BUF_SIZE);
     if (!sz || sz == (unsigned)-1)
+    {
+      if (sz)
+        __FileError__[i] = 1;
       return EOF;
+    }
     __FileBufSize__[i] = sz;
     pos = 0;
   }
@@ -1460,7 +1466,10 @@ int fputc(int c, FILE* stream)
   if (pos >= FILE_BUF_SIZE)
   {
     if (OsWrite(fd, __FileBufs__[i], FILE_BUF_SIZE) != FILE_BUF_SIZE)
+    {
+      __FileError__[i] = 1;
       return EOF;
+    }
     __FileBufDirty__[i] = 0;
     __FileBufSize__[i] = -1;
     __FileBufPos__[i] = -1;
@@ -1472,6 +1481,13 @@ int fputc(int c, FILE* stream)
   return ch;
 }
 
+int ferror(FILE* stream)
+{
+  unsigned i = (unsigned)stream;
+
+  return __FileError__[--i];
+}
+
 int fclose(FILE* stream)
 {
   unsigned i = (unsigned)stream, fd;
diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 3842b63..83e1746 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -135,6 +135,7 @@ int isalnum(int);
 #define EOF (-1)
 FILE* fopen(char*, char*);
 int fclose(FILE*);
+int ferror(FILE*);
 int putchar(int);
 int fputc(int, FILE*);
 int fgetc(FILE*);
@@ -471,6 +472,10 @@ void errorFile(char* n);
 STATIC
 void errorFileName(void);
 STATIC
+void errorFileRead(void);
+STATIC
+void errorFileWrite(void);
+STATIC
 void errorInternal(int n);
 STATIC
 void errorChrStr(void);
@@ -1060,6 +1065,9 @@ int GetNextChar(void)
   {
     if ((ch = fgetc(Files[FileCnt - 1])) == EOF)
     {
+      if (ferror(Files[FileCnt - 1]))
+        //error("Cannot read file \"%s\"\n", FileNames[FileCnt - 1]);
+        errorFileRead();
       fclose(Files[FileCnt - 1]);
       Files[FileCnt - 1] = NULL;
 
@@ -6017,6 +6025,18 @@ void errorFileName(void)
   error("Invalid or too long file name or path name\n");
 }
 
+STATIC
+void errorFileRead(void)
+{
+  error("Cannot read file \"%s\"\n", FileNames[FileCnt - 1]);
+}
+
+STATIC
+void errorFileWrite(void)
+{
+  error("Cannot write output file\n");
+}
+
 STATIC
 void errorInternal(int n)
 {
@@ -10026,10 +10046,19 @@ int main(int argc, char** argv)
 
   if (warnings && warnCnt)
     printf("%d warnings\n", warnCnt);
+
+  if (OutFile && ferror(OutFile))
+    //error("Cannot write output file\n");
+    errorFileWrite();
+
   GenStartCommentLine(); printf2("Compilation succeeded.\n");
 
-  if (OutFile)
-    fclose(OutFile);
+  if (OutFile && fclose(OutFile))
+  {
+    OutFile = NULL;
+    //error("Cannot write output file\n");
+    errorFileWrite();
+  }
 
   return 0;
 }
-- 
2.43.0


From 0b41b34d296eaa670eabf3208e551341a5336856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 51/76] fix: smlrpp: read errors were taken for the end of the
 input and write errors ignored

---
 v0100/ucpp/cpp.c   | 18 ++++++++++++++++--
 v0100/ucpp/lexer.c | 14 ++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 8e975d6..5b36362 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2567,6 +2567,12 @@ void errMem(void)
   die();
 }
 
+void errRead(char *name)
+{
+  fprintf(stderr, "could not read file '%s'\n", name);
+  die();
+}
+
 /*
  * Expands "@filename" in program arguments into arguments contained within file "filename".
  * This is a workaround for short DOS command lines limited to 126 characters.
@@ -2609,7 +2615,10 @@ void fatargs(int* pargc, char*** pargv)
         pp[j++] = (*pargv)[i]; /* there's no file by this name, treat it as an argument */
         continue;
       }
-      if ((fsz = fsize(f)) < 0)
+      fsz = fsize(f);
+      if (ferror(f))
+        errRead((*pargv)[i] + 1);
+      if (fsz < 0)
       {
         fclose(f);
         free(pp_to_free);
@@ -2627,7 +2636,8 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          buf[fread(buf, 1, sz, f)] = '\0';
+          if (fread(buf, 1, sz, f) != sz)
+            errRead((*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; /* don't count the file name as an argument, count only what's inside */
           while (p)
@@ -2675,6 +2685,10 @@ int main(int argc, char *argv[])
 	enter_file(&ls, ls.flags);
 	while ((r = cpp(&ls)) < CPPERR_EOF) fr = fr || (r > 0);
 	fr = fr || check_cpp_errors(&ls);
+	if (ferror(ls.output) || fclose(ls.output)) {
+		error(-1, "could not write output (disk full ?)");
+		fr = 1;
+	}
 	free_lexer_state(&ls);
 	wipeout();
 #ifdef MEM_DEBUG
diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index e97da24..b759ab9 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -444,7 +444,7 @@ void flush_output(struct lexer_state *ls)
 		x -= z;
 		y += z;
 	} while (z && x > 0);
-	if (!y) {
+	if (x > 0) {
 		error(ls->line, "could not flush output (disk full ?)");
 		die();
 	}
@@ -504,13 +504,23 @@ static inline int read_char(struct lexer_state *ls)
 			ls->ebuf = fread(ls->input_buf, 1,
 				INPUT_BUF_MEMG, ls->input);
 			ls->pbuf = 0;
+			if (ls->ebuf == 0 && ferror(ls->input)) {
+				error(ls->line, "input read error");
+				die();
+			}
 		}
 		if (ls->ebuf == 0) return -1;
 		c = ls->input_buf[ls->pbuf ++];
 #else
 		int x = getc(ls->input);
 
-		if (x == EOF) return -1;
+		if (x == EOF) {
+			if (ferror(ls->input)) {
+				error(ls->line, "input read error");
+				die();
+			}
+			return -1;
+		}
 		c = x;
 #endif
 		if (ls->flags & COPY_LINE) {
-- 
2.43.0


From fcada8e2522c9ffbeb19c39135e3dbcc771db790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 52/76] fix: smlrl: a truncated archive member header, and read
 errors of the stub and argument files, were ignored

---
 v0100/smlrl.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 1086fd6..0655f36 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -103,6 +103,7 @@ int vprintf(char*, void*);
 size_t fread(void*, size_t, size_t, FILE*);
 size_t fwrite(void*, size_t, size_t, FILE*);
 int fseek(FILE*, long, int);
+int ferror(FILE*);
 long ftell(FILE*);
 int remove(char*);
 
@@ -1184,8 +1185,10 @@ void loadMeta(const char* FileName)
       uint i;
 
       Fseek(f, ofs, SEEK_SET);
-      if (fread(&fh, 1, sizeof fh, f) != sizeof fh)
-        break;
+      if ((i = fread(&fh, 1, sizeof fh, f)) == 0 && !ferror(f))
+        break; // no more files
+      if (i != sizeof fh)
+        errArchive();
       if (fh.fmag[0] != 0x60 || fh.fmag[1] != 0x0A)
         errArchive();
 
@@ -2480,6 +2483,8 @@ void RwAout(void)
       }
       i++;
     }
+    if (ferror(fin))
+      error("Can't read a file\n");
     Fclose(fin);
     if (header)
     {
@@ -3701,7 +3706,10 @@ void fatargs(int* pargc, char*** pargv)
         pp[j++] = (*pargv)[i]; // there's no file by this name, treat it as an argument
         continue;
       }
-      if ((fsz = fsize(f)) < 0)
+      fsz = fsize(f);
+      if (ferror(f))
+        error("Can't read file '%s'\n", (*pargv)[i] + 1);
+      if (fsz < 0)
       {
         fclose(f);
         free(pp_to_free);
@@ -3719,7 +3727,8 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          buf[fread(buf, 1, sz, f)] = '\0';
+          if (fread(buf, 1, sz, f) != sz)
+            error("Can't read file '%s'\n", (*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; // don't count the file name as an argument, count only what's inside
           while (p)
-- 
2.43.0


From 427798b30b0e3957b03249bc1043db3cb6707017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 53/76] fix: smlrcc: read errors of archived objects and
 argument files were ignored

---
 v0100/smlrcc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..8e68a89 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -115,6 +115,7 @@ int vprintf(char*, void*);
 size_t fread(void*, size_t, size_t, FILE*);
 size_t fwrite(void*, size_t, size_t, FILE*);
 int fseek(FILE*, long, int);
+int ferror(FILE*);
 int remove(char*);
 
 char* tmpnam(char*);
@@ -522,7 +523,10 @@ void fatargs(int* pargc, char*** pargv)
         pp[j++] = (*pargv)[i]; // there's no file by this name, treat it as an argument
         continue;
       }
-      if ((fsz = fsize(f)) < 0)
+      fsz = fsize(f);
+      if (ferror(f))
+        error("Can't read file '%s'\n", (*pargv)[i] + 1);
+      if (fsz < 0)
       {
         fclose(f);
         free(pp_to_free);
@@ -540,7 +544,8 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          buf[fread(buf, 1, sz, f)] = '\0';
+          if (fread(buf, 1, sz, f) != sz)
+            error("Can't read file '%s'\n", (*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; // don't count the file name as an argument, count only what's inside
           while (p)
@@ -1067,7 +1072,7 @@ void Archive(void)
       Fwrite(buf, csz, fout);
       sz2 += csz;
     }
-    if ((ulong)sz != sz2)
+    if (ferror(f) || (ulong)sz != sz2)
       error("Failed to archive file '%s'\n", name);
 
     if (len2 > 15)
-- 
2.43.0


From f9cb305f1d4893ea1d2a9bf29d2bf2927485b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 54/76] fix: n2f: an error on closing the converted file was
 ignored

---
 v0100/n2f.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 7d87644..3fc9aba 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -448,7 +448,11 @@ void convert(void)
 
   fclose(fin);
   fin = NULL;
-  fclose(fout);
+  if (fclose(fout))
+  {
+    fout = NULL;
+    error("Failed to write file '%s'\n", out);
+  }
   fout = NULL;
 }
 
-- 
2.43.0


From 1a40057cd9360a2340f37ab8667cee19a9534341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 55/76] fix: smlrcc: a missing DPMI stub was ignored and the
 program linked without it

---
 v0100/smlrcc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 8e68a89..efe7a43 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -949,6 +949,10 @@ void Link(void)
   if (StdLib)
     AddOption(&LinkerOptions, &LinkerOptionsLen, StdLib);
 
+  // A DPMI program can't run without the stub
+  if (StdLib && OutputFormat == FormatAoutDpmi && !GotStub && !Stub)
+    error("Can't find '%s'\n", StubName);
+
   if (Stub)
   {
     AddOption(&LinkerOptions, &LinkerOptionsLen, "-stub");
-- 
2.43.0


From 13d6666e7fe9183d9939ab286c661307243a3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 56/76] fix: n2f: errors on seeking in the input were ignored

---
 v0100/n2f.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 3fc9aba..ac39a5b 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -263,6 +263,14 @@ void copyLine(FILE* fin, FILE* fout)
   fputc('\n', fout);
 }
 
+long Ftell(FILE* f)
+{
+  long pos = ftell(f);
+  if (pos < 0)
+    error("Failed to read file '%s'\n", InName);
+  return pos;
+}
+
 void findFrags(FILE* f)
 {
   long end;
@@ -277,7 +285,7 @@ void findFrags(FILE* f)
       char name[MAX_SEC_NAME_LEN + 1/*+1 in case it's longer*/ + 1/*NUL*/];
     } u;
 
-    end = ftell(f);
+    end = Ftell(f);
 
     skipSpaces(f);
     readNonspace(f, u.ident, sizeof u.ident - 1);
@@ -295,7 +303,7 @@ void findFrags(FILE* f)
         error("Section name missing\n");
 
       skipLine(f);
-      start = ftell(f);
+      start = Ftell(f);
       endFrag(end);
       beginFrag(start, u.name, line + 1); // fragment actually begins on the next line
     }
@@ -307,7 +315,7 @@ void findFrags(FILE* f)
     line++;
   } while (!feof(f) && !ferror(f)); // ferror(): prevent infinite loop if read/seek fails
 
-  end = ftell(f);
+  end = Ftell(f);
   endFrag(end);
 
   qsort(frag, fragCnt, sizeof(frag[0]), &fragCmp);
@@ -315,7 +323,8 @@ void findFrags(FILE* f)
 
 void n2f1(FILE* fin, long start, long end, FILE* fout)
 {
-  fseek(fin, start, SEEK_SET);
+  if (fseek(fin, start, SEEK_SET))
+    error("Failed to read file '%s'\n", InName);
 
   while (start >= 0 && start < end) // ensure start>=0: prevent infinite loop if ftell() fails
   {
@@ -374,7 +383,7 @@ void n2f1(FILE* fin, long start, long end, FILE* fout)
     }
 
     line++;
-    start = ftell(fin);
+    start = Ftell(fin);
   }
 }
 
-- 
2.43.0


From d85c349e997575471d718ed124f31341a6ea37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 57/76] fix: smlrl: an unchecked position of the output file
 could be used as -1

---
 v0100/smlrl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 0655f36..4553a5b 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -886,6 +886,14 @@ void Fseek(FILE* stream, long offset, int whence)
     error("Can't seek a file\n");
 }
 
+long Ftell(FILE* stream)
+{
+  long r = ftell(stream);
+  if (r < 0)
+    error("Can't seek a file\n");
+  return r;
+}
+
 void Fread(void* ptr, size_t size, FILE* stream)
 {
   size_t r = fread(ptr, 1, size, stream);
@@ -3231,7 +3239,7 @@ void RwPe(void)
   Pass(1, fout, hdrsz);
 
   {
-    uint32 pos = ftell(fout); // TBD!!! clean up
+    uint32 pos = Ftell(fout); // TBD!!! clean up
     // In PE, some importing-related addresses must be relative to the image base, so make them relative
     if (peImportsStart)
     {
-- 
2.43.0


From edc61e6bd2041c6de5eab0c94dee724651edeae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:07 +0000
Subject: [PATCH 58/76] fix: smlrcc: on Unix, names and options with characters
 special to the shell were not quoted

---
 v0100/smlrcc.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index efe7a43..ea99f09 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -581,14 +581,51 @@ void fatargs(int* pargc, char*** pargv)
 
 int EscapingNeeded(char* s)
 {
+#ifdef UNIX_LIKE
+  return *s == '\0' || strpbrk(s, " \t\n\r\v\f\"'`$\\<>&|;()[]{}*?!#~^") != NULL;
+#else
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
   // specially even inside double quotes (e.g. %path% would always expand).
   return *s == '\0' || strpbrk(s, " \t\"<>&|^") != NULL;
+#endif
 }
 
 // TBD!!! I should probably abandon the idea of launching subordinates via
 // shell (using system()) and instead use exec*()/CreateProcess() and such
 // to avoid this quoting/escaping mess.
+#ifdef UNIX_LIKE
+// Nothing is special to the shell inside single quotes
+size_t Escape(char* out, char* in, size_t outsz)
+{
+  size_t sz = 0;
+  int c;
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  while ((c = *in++) != '\0')
+  {
+    if (c == '\'') // ' -> '\''
+    {
+      if ((sz += 3) <= outsz)
+      {
+        memcpy(out, "'\\'", 3);
+        out += 3;
+      }
+    }
+    if (sz++ < outsz)
+      *out++ = c;
+  }
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  if (sz++ < outsz)
+    *out++ = '\0';
+
+  return sz;
+}
+#else
 size_t Escape(char* out, char* in, size_t outsz)
 {
   size_t sz = 0;
@@ -639,6 +676,7 @@ size_t Escape(char* out, char* in, size_t outsz)
 
   return sz;
 }
+#endif
 
 void AddOptionInner(char** options, size_t* len, char* option, int escape)
 {
-- 
2.43.0


From 2fd73c4ba4fe6997d792c9fe5496f4dcf90ba52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 59/76] fix: n2f: the output name was not quoted in the fasm
 command

---
 v0100/n2f.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index ac39a5b..5eea472 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -85,6 +85,10 @@
 #include <stdlib.h>
 #include <string.h>
 
+#if defined(_LINUX) || defined(_MACOS) || defined(__unix__) || defined(__APPLE__)
+#define UNIX_LIKE
+#endif
+
 #define MAX_FRAGS 3000
 #define MAX_SECS  32
 #define MAX_SEC_NAME_LEN 32
@@ -465,10 +469,35 @@ void convert(void)
   fout = NULL;
 }
 
+// Appends a file name to a command, quoting it if needed
+void addName(char* cmd, char* name)
+{
+  cmd += strlen(cmd);
+#ifdef UNIX_LIKE
+  // Nothing is special to the shell inside single quotes
+  *cmd++ = '\'';
+  while (*name != '\0')
+  {
+    if (*name == '\'') // ' -> '\''
+    {
+      strcpy(cmd, "'\\'");
+      cmd += 3;
+    }
+    *cmd++ = *name++;
+  }
+  strcpy(cmd, "'");
+#else
+  if (strchr(name, ' ') != NULL)
+    strcat(strcat(strcpy(cmd, "\""), name), "\"");
+  else
+    strcpy(cmd, name);
+#endif
+}
+
 void fassemble(char* argv0)
 {
   size_t argv0l = strlen(argv0);
-  size_t cmdsz = strlen(IntermidName) + (OutName ? 1 + strlen(OutName) : 0) + 1/*NUL*/;
+  size_t cmdsz = strlen(IntermidName) * 4 + (OutName ? 1 + strlen(OutName) * 4 : 0) + 2 * 2/*quotes*/ + 1/*NUL*/;
   char* pfasm;
   char* cmd;
   int res;
@@ -492,11 +521,11 @@ void fassemble(char* argv0)
 
   strcpy(cmd, pfasm);
   strcat(cmd, " ");
-  strcat(cmd, IntermidName);
+  addName(cmd, IntermidName);
   if (OutName)
   {
     strcat(cmd, " ");
-    strcat(cmd, OutName);
+    addName(cmd, OutName);
   }
 
   res = system(cmd);
-- 
2.43.0


From 793fa1b5e09f9763e32fdf63f78047fe8c4b7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 60/76] fix: an argument file whose size could not be told was
 read in part

---
 v0100/smlrcc.c   | 2 +-
 v0100/smlrl.c    | 2 +-
 v0100/ucpp/cpp.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index ea99f09..6d8e591 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -544,7 +544,7 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          if (fread(buf, 1, sz, f) != sz)
+          if (fread(buf, 1, sz, f) != sz || fgetc(f) != EOF)
             error("Can't read file '%s'\n", (*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; // don't count the file name as an argument, count only what's inside
diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 4553a5b..6e91dfa 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -3735,7 +3735,7 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          if (fread(buf, 1, sz, f) != sz)
+          if (fread(buf, 1, sz, f) != sz || fgetc(f) != EOF)
             error("Can't read file '%s'\n", (*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; // don't count the file name as an argument, count only what's inside
diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 5b36362..c81b63f 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2636,7 +2636,7 @@ void fatargs(int* pargc, char*** pargv)
           char* p;
           memset(buf, '\0', sz + 1);
           fseek(f, 0, SEEK_SET);
-          if (fread(buf, 1, sz, f) != sz)
+          if (fread(buf, 1, sz, f) != sz || fgetc(f) != EOF)
             errRead((*pargv)[i] + 1);
           p = strtok(buf, sep);
           pcnt--; /* don't count the file name as an argument, count only what's inside */
-- 
2.43.0


From 6cd8d0128c411b06b3c2cf6088b8836d276cc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 61/76] fix: an object file cut short was left when the
 assembler failed

---
 v0100/smlrcc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 6d8e591..4019ac8 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -218,6 +218,8 @@ size_t ArchiveFilesLen;
 char* TemporaryFiles;
 size_t TemporaryFilesLen;
 
+char* UnfinishedFile; // object file being made by the assembler
+
 int InputFileCnt = 0;
 
 tDynArr OpenFiles;
@@ -316,6 +318,8 @@ void error(char* format, ...)
 
   if (OutName)
     remove(OutName);
+  if (UnfinishedFile)
+    remove(UnfinishedFile);
   DeleteTemporaryFiles();
 
   puts("");
@@ -904,7 +908,6 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, asmName);
 
     AddFile(&TemporaryFiles, &TemporaryFilesLen, asmName);
-    // TBD!!! also, if CompileToAsm==0, add .o file to temps here
     System(cmd);
 
     free(cmd);
@@ -949,7 +952,9 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, "-o");
     AddOption(&cmd, &cmdlen, objName);
 
+    UnfinishedFile = objName;
     System(cmd);
+    UnfinishedFile = NULL;
 
     free(cmd);
 
-- 
2.43.0


From cb837d951d5d5808f894a02b21c3b586e86ff220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 62/76] fix: an #if left open by an included file went on past
 that file

---
 v0100/ucpp/cpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index c81b63f..8a92b6f 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2000,7 +2000,9 @@ int cpp(struct lexer_state *ls)
 		}
 		if (ls->ifnest) {
 			error(ls->line, "unterminated #if construction "
-				"(depth %ld)", ls->ifnest);
+				"(depth %d)", ls->ifnest);
+			/* an unterminated #if ends with its file */
+			ls->condcomp = 1;
 			lexer_error = 1;
 			r = CPPERR_NEST;
 		}
-- 
2.43.0


From 7aa59f56d5b8a04bc70056e0c75082dac9f7137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 63/76] fix: n2f: section attributes (write, exec, align=) were
 dropped

---
 v0100/n2f.c | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 5eea472..306e374 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -59,6 +59,8 @@
   - 'section .data' -> 'section ".data" writable'
   - 'section .bss' -> 'section ".bss" writable'
   - 'section something_else' -> 'section "something_else"'
+  - 'section name write exec align=number' ->
+    'section "name" executable writable align number'
   - 'bits 32/16' -> 'use32/use16'
   - 'alignb number' -> 'align number'
   - 'global symbol' -> 'public symbol'
@@ -143,6 +145,9 @@ unsigned fragCnt;
 long frag_1end; // end of the fragment before the first section fragment
 
 char secName[MAX_SECS][MAX_SEC_NAME_LEN + 1];
+char secExec[MAX_SECS];
+char secWrite[MAX_SECS];
+unsigned secAlign[MAX_SECS]; // 0 if unspecified
 unsigned secCnt;
 
 unsigned line; // input file line number
@@ -159,12 +164,10 @@ unsigned addSection(char* name)
   return secCnt++;
 }
 
-void beginFrag(long start, char* name, unsigned line)
+void beginFrag(long start, unsigned sec, unsigned line)
 {
-  unsigned sec;
   if (fragCnt >= MAX_FRAGS)
     error("Too many section fragments\n");
-  sec = addSection(name);
   frag[fragCnt].start = start;
   frag[fragCnt].sec = sec;
   frag[fragCnt++].line = line;
@@ -275,6 +278,25 @@ long Ftell(FILE* f)
   return pos;
 }
 
+// Reads the section attributes following the section name
+void readSecAttrs(FILE* f, unsigned sec)
+{
+  char attr[sizeof "align=" + 10/*digits*/];
+
+  for (;;)
+  {
+    skipSpaces(f);
+    if (!readNonspace(f, attr, sizeof attr - 1) || *attr == ';')
+      break;
+    if (!strcmp(attr, "exec"))
+      secExec[sec] = 1;
+    else if (!strcmp(attr, "write"))
+      secWrite[sec] = 1;
+    else if (!strncmp(attr, "align=", sizeof "align=" - 1))
+      secAlign[sec] = atoi(attr + sizeof "align=" - 1);
+  }
+}
+
 void findFrags(FILE* f)
 {
   long end;
@@ -296,7 +318,7 @@ void findFrags(FILE* f)
 
     if (!strcmp(u.ident, "section"))
     {
-      unsigned len;
+      unsigned len, sec;
       long start;
 
       skipSpaces(f);
@@ -306,10 +328,13 @@ void findFrags(FILE* f)
       if (len == 0)
         error("Section name missing\n");
 
+      sec = addSection(u.name);
+      readSecAttrs(f, sec);
+
       skipLine(f);
       start = Ftell(f);
       endFrag(end);
-      beginFrag(start, u.name, line + 1); // fragment actually begins on the next line
+      beginFrag(start, sec, line + 1); // fragment actually begins on the next line
     }
     else
     {
@@ -410,14 +435,16 @@ void n2f(FILE* fin, FILE* fout)
 
     if (lastSec != sec)
     {
-      char* attrs = "";
       lastSec = sec;
       // new section header
-      if (!strcmp(secName[sec], ".text"))
-        attrs = " executable";
-      else if (!strcmp(secName[sec], ".data") || !strcmp(secName[sec], ".bss"))
-        attrs = " writable";
-      fprintf(fout, "%ssection \"%s\"%s\n", FlatBinary ? ";" : "", secName[sec], attrs);
+      fprintf(fout, "%ssection \"%s\"", FlatBinary ? ";" : "", secName[sec]);
+      if (secExec[sec] || !strcmp(secName[sec], ".text"))
+        fputs(" executable", fout);
+      if (secWrite[sec] || !strcmp(secName[sec], ".data") || !strcmp(secName[sec], ".bss"))
+        fputs(" writable", fout);
+      if (secAlign[sec])
+        fprintf(fout, " align %u", secAlign[sec]);
+      fputs("\n", fout);
     }
 
     n2f1(fin, frag[i].start, frag[i].end, fout);
-- 
2.43.0


From 0d7cdd781b9e79ffba7168aa27dfedbdc1b12089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 64/76] fix: character and short initializers out of range were
 emitted unreduced, which FASM rejects

---
 v0100/cgx86.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/cgx86.c b/v0100/cgx86.c
index f3ee0b4..af501f2 100644
--- a/v0100/cgx86.c
+++ b/v0100/cgx86.c
@@ -224,10 +224,11 @@ STATIC
 void GenIntData(int Size, int Val)
 {
   Val = truncInt(Val);
+  // FASM, unlike NASM, rejects values that don't fit
   if (Size == 1)
-    printf2("\tdb\t%d\n", Val);
+    printf2("\tdb\t%d\n", Val & 0xFF);
   else if (Size == 2)
-    printf2("\tdw\t%d\n", Val);
+    printf2("\tdw\t%d\n", Val & 0xFFFF);
 #ifdef CAN_COMPILE_32BIT
   else if (Size == 4)
     printf2("\tdd\t%d\n", Val);
-- 
2.43.0


From 834efb2ee4132ed5f4706a723423e302852a0bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:29 +0000
Subject: [PATCH 65/76] fix: time() did not store the time through its argument
 on macOS

---
 v0100/srclib/time.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/srclib/time.c b/v0100/srclib/time.c
index 71aea2d..91a37ec 100644
--- a/v0100/srclib/time.c
+++ b/v0100/srclib/time.c
@@ -192,6 +192,8 @@ time_t time(time_t* t)
 {
   unsigned long sec_usec[2];
   SysGetTime(sec_usec);
+  if (t)
+    *t = sec_usec[0];
   return sec_usec[0];
 }
 
-- 
2.43.0


From 3cde215dba17a486ad120d3a15b90421fc944df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:29 +0000
Subject: [PATCH 66/76] fix: the end of a pipe was a read error in Windows
 programs

---
 v0100/srclib/iwin32.h | 1 +
 v0100/srclib/read.c   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/iwin32.h b/v0100/srclib/iwin32.h
index d219909..f2089aa 100644
--- a/v0100/srclib/iwin32.h
+++ b/v0100/srclib/iwin32.h
@@ -34,6 +34,7 @@
 #define EXCEPTION_CONTINUE_EXECUTION  0xFFFFFFFF
 
 #define ERROR_FILE_NOT_FOUND  2
+#define ERROR_BROKEN_PIPE     109
 
 typedef struct _SYSTEMTIME
 {
diff --git a/v0100/srclib/read.c b/v0100/srclib/read.c
index aaed2cc..6060c9c 100644
--- a/v0100/srclib/read.c
+++ b/v0100/srclib/read.c
@@ -166,7 +166,8 @@ ssize_t __read(int fd, void* buf, size_t size)
   }
   else
   {
-    return -1;
+    // The end of a pipe is reported as an error
+    return (__GetLastError() == ERROR_BROKEN_PIPE) ? 0 : -1;
   }
 }
 
-- 
2.43.0


From 4fe613a88723170576967798c4c2dd61b4d5792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:41 +0000
Subject: [PATCH 67/76] fix: getenv() did not find variables with an empty
 value in Windows programs

---
 v0100/srclib/getenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/getenv.c b/v0100/srclib/getenv.c
index 616ed14..33efaea 100644
--- a/v0100/srclib/getenv.c
+++ b/v0100/srclib/getenv.c
@@ -221,9 +221,10 @@ char* getenv(char* name)
     }
     p = p2;
 
+    __SetLastError(0);
     len = __GetEnvironmentVariableA(name, p, sz);
 
-    if (len == 0)
+    if (len == 0 && __GetLastError()) // length 0 without an error is an empty value
     {
       goto err;
     }
-- 
2.43.0


From 1984cc88724e77838f4816eb607722fcdd8eaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:06 +0000
Subject: [PATCH 68/76] fix: dereferencing a function was rejected, e.g.
 (*f)(1)

---
 v0100/smlrc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 83e1746..43d5f58 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -3964,6 +3964,11 @@ int exprval(int* idx, int* ExprTypeSynPtr, int* ConstExpr)
       else
         stack[oldIdxRight + 1 - (oldSpRight - sp)][1] = GetDeclSize(*ExprTypeSynPtr, 1);
     }
+    else if (SyntaxStack0[*ExprTypeSynPtr] == '(')
+      // a function decays into a pointer to itself,
+      // whose dereference is the function again,
+      // remove the dereference
+      del(oldIdxRight + 1 - (oldSpRight - sp), 1);
     else
       //error("exprval(): pointer/array expected after '*' / before '[]'\n");
       errorOpType();
-- 
2.43.0


From 7bcfd4c12874cd98d02b9a8be9633839c2eab026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:06 +0000
Subject: [PATCH 69/76] fix: ?: with void and float operands was accepted

---
 v0100/smlrc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 43d5f58..3df161e 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -5371,6 +5371,10 @@ int exprval(int* idx, int* ExprTypeSynPtr, int* ConstExpr)
 
       if (fmask)
       {
+        // floats don't mix with void, either
+        numericTypeCheck(RightExprTypeSynPtr);
+        numericTypeCheck(*ExprTypeSynPtr);
+
         if (fmask == 1)
         {
           int u = isUint(*ExprTypeSynPtr);
-- 
2.43.0


From e0e79aa90d06a5850c22dc916b93ea5b4d6ea5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:56 +0000
Subject: [PATCH 70/76] fix: a declarator could be followed by {, ), ] or } in
 place of , or ;

---
 v0100/smlrc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 3df161e..367d908 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8515,9 +8515,13 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 
       CheckRedecl(lastSyntaxPtr);
 
-      if ((tok == ';') | (tok == '}'))
+      // '}' may only be the end of a function body here
+      if ((tok == ';') | ((tok == '}') & isFxn))
         break;
 
+      if (tok != ',')
+        errorUnexpectedToken(tok);
+
       tok = GetToken();
       continue;
     }
-- 
2.43.0


From 5ff526169e80c221b27b8e3b6f8234ebee257ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:56 +0000
Subject: [PATCH 71/76] fix: a parameter list could end with a comma

---
 v0100/smlrc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 367d908..7e2a213 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8547,7 +8547,11 @@ void ParseFxnParams(int tok)
     lastSyntaxPtr = SyntaxStackCnt;
 
     if (tok == ')') /* unspecified params */
+    {
+      if (cnt) /* nothing after ',' */
+        errorUnexpectedToken(tok);
       break;
+    }
 
     if (!TokenStartsDeclaration(tok, 1))
     {
-- 
2.43.0


From 7b38fce7a45098475c4bea250d9cc3e1be8062a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 72/76] fix: a misplaced break or continue was reported on the
 line of the next token

---
 v0100/smlrc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 7e2a213..e382463 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -9484,10 +9484,10 @@ int ParseStatement(int tok, int BrkCntTarget[2], int casesIdx)
       if ((tok = GetToken()) != ';')
         //error("ParseStatement(): ';' expected\n");
         errorUnexpectedToken(tok);
-      tok = GetToken();
       if (BrkCntTarget == NULL)
         //error("ParseStatement(): 'break' must be within 'while', 'for' or 'switch' statement\n");
         errorCtrlOutOfScope();
+      tok = GetToken();
       GenJumpUncond(BrkCntTarget[0]);
     }
     else if (tok == tokCont)
@@ -9498,10 +9498,10 @@ int ParseStatement(int tok, int BrkCntTarget[2], int casesIdx)
       if ((tok = GetToken()) != ';')
         //error("ParseStatement(): ';' expected\n");
         errorUnexpectedToken(tok);
-      tok = GetToken();
       if (BrkCntTarget == NULL || BrkCntTarget[1] == 0)
         //error("ParseStatement(): 'continue' must be within 'while' or 'for' statement\n");
         errorCtrlOutOfScope();
+      tok = GetToken();
       GenJumpUncond(BrkCntTarget[1]);
     }
     else if (tok == tokSwitch)
-- 
2.43.0


From a67ea644ad954e65aa67c9f51bd79310d5460d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:51 +0000
Subject: [PATCH 73/76] fix: a declaration of a struct, union or enum could end
 with a comma

---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index e382463..faa858f 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8523,6 +8523,9 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
         errorUnexpectedToken(tok);
 
       tok = GetToken();
+      // A declarator must follow the comma (a lone "struct S;" needs none)
+      if (tok == ';')
+        error("Identifier expected in declaration\n");
       continue;
     }
 
-- 
2.43.0


From aabbe3672ffc02456ec7423768032b1f1f5ddf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:50 +0000
Subject: [PATCH 74/76] fix: ucpp: a % that began a line was lost

---
 v0100/ucpp/lexer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index b759ab9..b672197 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -969,9 +969,10 @@ static inline int read_token(struct lexer_state *ls)
 					put_char(ls, c);
 				}
 			}
-		} else if (outc == '/' && !(ls->flags & LEXER)
-			&& ls->condcomp) {
-			/* this is a hack: we need to dump a pending slash */
+		} else if ((outc == '/' || outc == '%')
+			&& !(ls->flags & LEXER) && ls->condcomp) {
+			/* this is a hack: we need to dump a pending slash
+			   or a pending '%' that began a line */
 			put_char(ls, outc);
 			outc = 0;
 		}
-- 
2.43.0


From 558adbf854de28dbad762a86b78612ee075ba212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:23 +0000
Subject: [PATCH 75/76] fix: ucpp: a name not to be replaced any more was
 replaced after passing an operand of ##

---
 v0100/ucpp/macro.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index f882b99..08450de 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1298,7 +1298,7 @@ collect_args:
 	 */
 
 #define ZAP_LINE(t)	do { \
-		if ((t).type == NAME) { \
+		if ((t).type == NAME && (t).line >= 0) { \
 			struct macro *zlm = HTT_get(&macros, (t).name); \
 			if (zlm && zlm->nest > reject_nested) \
 				(t).line = -1 - (t).line; \
@@ -1441,7 +1441,9 @@ collect_args:
 			if (ltwds || ntwds) {
 				while (atl[z].art < atl[z].nt) {
 					t = atl[z].t[atl[z].art ++];
-					t.line = ls->line;
+					/* (a name marked as not to be
+					   replaced stays so) */
+					if (t.line >= 0) t.line = ls->line;
 					ZAP_LINE(t);
 					aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
 				}
-- 
2.43.0


From cf91dd98abadb48a4bc176beb10e6cc2b745a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 76/76] fix: ucpp: an unreplaced macro name from an argument
 was replaced in an argument of another macro

---
 v0100/ucpp/macro.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 08450de..e7c7c6d 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1624,6 +1624,13 @@ collect_args:
 	 * OPT_NONE NONE are emitted.
 	 */
 	etl_limit = etl.nt;
+	/* (a name that came unreplaced out of an argument must not be
+	   replaced in an argument of another macro either) */
+	while (etl.art < etl_limit) {
+		ZAP_LINE(etl.t[etl.art]);
+		etl.art ++;
+	}
+	etl.art = 0;
 	if (tfi) {
 		save_tfi = tfi->art;
 		while (tfi->art < tfi->nt) aol(etl.t, etl.nt,
-- 
2.43.0

