From 4d6756b0b4c0635d066dec9c863637528fa006dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 01/83] Let simulation builds tune MAXRECLEN (guarded by
 LIBMSEED_SIM)

---
 libmseed/libmseed.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..b91b561 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -134,7 +134,12 @@ extern "C" {
 #endif
 
 #define MINRECLEN 40       //!< Minimum miniSEED record length supported
+#if defined(LIBMSEED_SIM) /* Simulation builds only: the limit, and with it the read buffer size, is a tunable */
+extern int libmseed_sim_maxreclen;
+#define MAXRECLEN libmseed_sim_maxreclen
+#else
 #define MAXRECLEN 10485760 //!< Maximum miniSEED record length supported (10MiB)
+#endif
 #define MAXRECLENv2 131172 //!< Maximum v2 miniSEED record length supported (131+ KiB or 2^17)
 
 #define LM_SIDLEN 64       //!< Length of source ID string
-- 
2.43.0


From 8bab32a95bd527c49fa9ecb56429e6eb75830d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:41 +0000
Subject: [PATCH 02/83] fix: keep the pause state set while a URL transfer is
 unpaused

The receive callback can be called from curl_easy_pause() and pause the
connection again.  Resetting the flag afterwards lost that state and
msio_fread() looped forever waiting for data.
---
 libmseed/msio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8eacc9f..987afe5 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -522,9 +522,10 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       return -1;
     }
 
-    /* Unpause connection */
-    curl_easy_pause (io->handle, CURLPAUSE_CONT);
+    /* Unpause connection.  The flag is reset first as data may be delivered, and
+     * the connection paused again, before curl_easy_pause() returns. */
     rcp.is_paused = 0;
+    curl_easy_pause (io->handle, CURLPAUSE_CONT);
 
     /* Receive data while connection running, destination space available
      * and connection is not paused. */
-- 
2.43.0


From a419307652e328b978d6d09bfae3c5d31f39726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 03/83] fix: report failed URL transfers instead of treating
 them as end of data

A refused connection or a transfer that broke off was indistinguishable from
a complete one.  The result of the finished transfer is now checked and a
failure is returned by msio_fopen() and msio_fread().
---
 libmseed/msio.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 987afe5..d761049 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -369,6 +369,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     /* Start connection, get status & headers, without consuming any data */
     msio_fread (io, NULL, 0);
 
+    response_code = 0;
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
     if (response_code == 404)
@@ -381,6 +382,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
       return -1;
     }
+    else if (io->still_running < 0)
+    {
+      ms_log (2, "Cannot open %s: connection failed\n", path);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
@@ -510,9 +516,13 @@ msio_fread (LMIO *io, void *buffer, size_t size)
     int maxfd       = -1;
     int rc;
 
-    if (!io->still_running)
+    if (io->still_running == 0)
       return 0;
 
+    /* A transfer that failed cannot be read further */
+    if (io->still_running < 0)
+      return -1;
+
     /* Set up destination buffer in write callback parameters */
     rcp.buffer = buffer;
     rcp.size   = size;
@@ -572,12 +582,37 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       /* Receive data */
       if (rc >= 0)
       {
-        curl_multi_perform (io->handle2, &io->still_running);
+        if (curl_multi_perform (io->handle2, &io->still_running) != CURLM_OK)
+        {
+          ms_log (2, "Error with curl_multi_perform()\n");
+          io->still_running = -1;
+          return -1;
+        }
       }
     } while (io->still_running > 0 && !rcp.is_paused && (rcp.size > 0 || rcp.buffer == NULL));
 
     read = size - rcp.size;
 
+    /* Check result of a finished transfer, a negative still_running flags failure */
+    if (io->still_running == 0)
+    {
+      CURLMsg *msg;
+      int queued;
+
+      while ((msg = curl_multi_info_read (io->handle2, &queued)) != NULL)
+      {
+        if (msg->msg == CURLMSG_DONE && msg->data.result != CURLE_OK)
+        {
+          ms_log (2, "Error receiving data: %s\n", curl_easy_strerror (msg->data.result));
+          io->still_running = -1;
+        }
+      }
+
+      /* Report failure when there are no more data received before it */
+      if (io->still_running < 0 && read == 0)
+        return -1;
+    }
+
 #endif /* defined(LIBMSEED_URL) */
   }
 
-- 
2.43.0


From e4c551e8423db4882ed9b9f410699524f1bf1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 04/83] fix: reserve room for a whole URL chunk in the reading
 buffer

A chunk that does not fit in the remaining buffer is never delivered, so a
record within 16 KiB of MAXRECLEN could not be completed from a URL.
---
 libmseed/fileutils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..645e37c 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -194,6 +194,10 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
 /* Macro to return current reading position */
 #define MSFPREADPTR(MSFP) (MSFP->readbuffer + MSFP->readoffset)
 
+/* Size of reading buffer: a record of maximum length and the largest chunk
+ * of data delivered by a URL transfer, see msio_fread() */
+#define MSFPBUFSIZE (MAXRECLEN + 16384)
+
 /*****************************************************************/ /**
  * @brief Read miniSEED records from a file or URL with optional selection
  *
@@ -320,7 +324,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   /* Allocate reading buffer */
   if (msfp->readbuffer == NULL)
   {
-    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (MAXRECLEN)))
+    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (MSFPBUFSIZE)))
     {
       ms_log (2, "Cannot allocate memory for read buffer\n");
       return MS_GENERROR;
@@ -401,7 +405,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       }
 
       /* Determine read size */
-      readsize = (MAXRECLEN - msfp->readlength);
+      readsize = (MSFPBUFSIZE - msfp->readlength);
 
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
-- 
2.43.0


From 2627012413cff7c41b724f1fb24783bb351bb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 05/83] fix: do not use header callback parameters after
 opening a URL

The parameters are on the stack of msio_fopen(), a header arriving later,
e.g. in a trailer, was processed with a dangling pointer.  Also do not read
beyond the header buffer, which is not terminated.
---
 libmseed/msio.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index d761049..a1e40de 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -119,16 +119,16 @@ header_callback (char *buffer, size_t size, size_t num, void *userdata)
   if (size > 22 && strncasecmp (buffer, "Content-Range: bytes", 20) == 0)
   {
     /* Process each character, starting just afer "bytes" unit */
-    for (ptr = buffer + 20; *ptr != '\0' && (ptr - buffer) < size; ptr++)
+    for (ptr = buffer + 20; (ptr - buffer) < size && *ptr != '\0'; ptr++)
     {
       /* Skip spaces before start of range */
       if (*ptr == ' ' && startdigits == 0)
         continue;
       /* Digits before dash, part of start */
-      else if (isdigit (*ptr) && dash == NULL)
+      else if (isdigit ((unsigned char)*ptr) && dash == NULL)
         startstr[startdigits++] = *ptr;
       /* Digits after dash, part of end */
-      else if (isdigit (*ptr) && dash != NULL)
+      else if (isdigit ((unsigned char)*ptr) && dash != NULL)
         endstr[enddigits++] = *ptr;
       /* If first dash found, store pointer */
       else if (*ptr == '-' && dash == NULL)
@@ -369,6 +369,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     /* Start connection, get status & headers, without consuming any data */
     msio_fread (io, NULL, 0);
 
+    /* The header callback and its parameters are only valid during opening,
+     * headers arriving later, e.g. trailers, must not be processed */
+    curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, NULL);
+    curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, NULL);
+
     response_code = 0;
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
-- 
2.43.0


From 29aaf4e3c223c535d52e2ade3a669aa5a0bc910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 06/83] fix: refuse a complete response to a byte range request
 for a URL

A server that ignores the range sends the resource from its beginning, which
was read as if it started at the requested offset.
---
 libmseed/msio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index a1e40de..e15d23c 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -208,6 +208,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
 #else
     long response_code;
     struct header_callback_parameters hcp;
+    int64_t rangestart = (startoffset) ? *startoffset : 0;
 
     io->type = LMIO_URL;
 
@@ -392,6 +393,12 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s: connection failed\n", path);
       return -1;
     }
+    /* A complete response, "200 OK", is not the requested range */
+    else if (rangestart > 0 && response_code == 200)
+    {
+      ms_log (2, "Cannot open %s: byte range not supported by server\n", path);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
-- 
2.43.0


From e7042ca02bc531d1e9965fd1340866294b8fc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 07/83] fix: close a stream that could not be opened completely

After a failed seek or HTTP error the open handle was kept and the next call
read from it, from the wrong offset or without the requested range.
---
 libmseed/fileutils.c | 2 ++
 libmseed/msio.c      | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 645e37c..037a34d 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -362,6 +362,8 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     {
       if (msio_fopen(&msfp->input, msfp->path, "rb", &msfp->startoffset, &msfp->endoffset))
       {
+        /* Release a partially opened stream, it must not be read later */
+        msio_fclose (&msfp->input);
         msr3_free (ppmsr);
         return MS_GENERROR;
       }
diff --git a/libmseed/msio.c b/libmseed/msio.c
index e15d23c..ff1ed0a 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -464,9 +464,12 @@ msio_fclose (LMIO *io)
     ms_log (2, "URL support not included in library\n");
     return -1;
 #else
-    curl_multi_remove_handle (io->handle2, io->handle);
+    /* The multi handle is not set if opening failed early */
+    if (io->handle2)
+      curl_multi_remove_handle (io->handle2, io->handle);
     curl_easy_cleanup (io->handle);
-    curl_multi_cleanup (io->handle2);
+    if (io->handle2)
+      curl_multi_cleanup (io->handle2);
 #endif
   }
 
-- 
2.43.0


From b4b872048f29946183b6969c2df0e68c7e89891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 08/83] fix: never close a stream twice or close standard input

A stream whose close failed was kept and closed again on cleanup.  Standard
input was closed after the first reading of '-' and then used when closed.
---
 libmseed/msio.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index ff1ed0a..08476ca 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -437,7 +437,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
 int
 msio_fclose (LMIO *io)
 {
-  int rv;
+  int rv = 0;
 
   if (!io)
   {
@@ -450,13 +450,12 @@ msio_fclose (LMIO *io)
 
   if (io->type == LMIO_FILE || io->type == LMIO_FD)
   {
-    rv = fclose (io->handle);
+    /* Standard input is not opened by the library and left open */
+    if (io->handle != stdin)
+      rv = fclose (io->handle);
 
     if (rv)
-    {
       ms_log (2, "Error closing file (%s)\n", strerror (errno));
-      return -1;
-    }
   }
   else if (io->type == LMIO_URL)
   {
@@ -476,8 +475,9 @@ msio_fclose (LMIO *io)
   io->type = LMIO_NULL;
   io->handle = NULL;
   io->handle2 = NULL;
+  io->still_running = 0;
 
-  return 0;
+  return (rv) ? -1 : 0;
 } /* End of msio_fclose() */
 
 
-- 
2.43.0


From 406a187009e111405c58784e7b3459dadff19739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 09/83] fix: do not read beyond the end of a requested byte
 range

A record starting within the range of a file but ending beyond it was
returned, in contrast to the same range of a URL.
---
 libmseed/fileutils.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 037a34d..e7310c3 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -198,6 +198,12 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
  * of data delivered by a URL transfer, see msio_fread() */
 #define MSFPBUFSIZE (MAXRECLEN + 16384)
 
+/* Macro to test if no more data can be read: at end of stream or end of byte range */
+#define MSFPATEND(MSFP)          \
+  (msio_feof (&MSFP->input) ||   \
+   (MSFP->endoffset &&           \
+    (MSFP->streampos + MSFPBUFLEN (MSFP)) > MSFP->endoffset))
+
 /*****************************************************************/ /**
  * @brief Read miniSEED records from a file or URL with optional selection
  *
@@ -392,7 +398,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
 
     /* Read more data into buffer if not at EOF and buffer has less than MINRECLEN
      * or more data is needed for the current record detected in buffer. */
-    if (!msio_feof (&msfp->input) && (MSFPBUFLEN (msfp) < MINRECLEN || parseval > 0))
+    if (!MSFPATEND (msfp) && (MSFPBUFLEN (msfp) < MINRECLEN || parseval > 0))
     {
       /* Reset offsets if no unprocessed data in buffer */
       if (MSFPBUFLEN (msfp) <= 0)
@@ -421,13 +427,20 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
 
       /* Update read buffer length */
       msfp->readlength += readcount;
+
+      /* Discard any data beyond a known end offset in stream */
+      if (msfp->endoffset &&
+          (msfp->streampos + MSFPBUFLEN (msfp)) > (msfp->endoffset + 1))
+      {
+        msfp->readlength -= (int)((msfp->streampos + MSFPBUFLEN (msfp)) - (msfp->endoffset + 1));
+      }
     }
 
     /* Attempt to parse record from buffer */
     if (MSFPBUFLEN (msfp) >= MINRECLEN)
     {
-      /* Set end of file flag if at EOF */
-      if (msio_feof (&msfp->input))
+      /* Set end of file flag if no more data */
+      if (MSFPATEND (msfp))
         pflags |= MSF_ATENDOFFILE;
 
       parseval = msr3_parse (MSFPREADPTR (msfp), MSFPBUFLEN (msfp), ppmsr, pflags, verbose);
@@ -536,7 +549,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
           }
         }
         /* End of file check */
-        else if (msio_feof (&msfp->input))
+        else if (MSFPATEND (msfp))
         {
           if (verbose)
             ms_log (0, "Truncated record at byte offset %" PRId64 ", end offset %" PRId64 ": %s\n",
@@ -549,7 +562,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     } /* End of record detection */
 
     /* Finished when at end-of-stream and buffer contains less than MINRECLEN */
-    if (msio_feof (&msfp->input) && MSFPBUFLEN (msfp) < MINRECLEN)
+    if (MSFPATEND (msfp) && MSFPBUFLEN (msfp) < MINRECLEN)
     {
       if (msfp->recordcount == 0)
       {
-- 
2.43.0


From 280cc1be21a04d2b462545b5b7a083e12b22e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 10/83] fix: keep skipping non-data when a detected record
 exceeds the stream

With MSF_SKIPNOTDATA a damaged record length, or a torn record followed by
others, ended the reading and all following intact records were lost.
---
 libmseed/fileutils.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index e7310c3..bd35352 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -165,7 +165,7 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
     return;
   }
 
-  if (shift <= 0 && shift > msfp->readlength)
+  if (shift <= 0 || shift > msfp->readlength)
   {
     ms_log (2, "Cannot shift buffer, shift: %d, readlength: %d, readoffset: %d\n",
             shift, msfp->readlength, msfp->readoffset);
@@ -274,6 +274,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   int parseval  = 0;
   int readsize  = 0;
   int readcount = 0;
+  int truncated = 0;
   int retcode   = MS_NOERROR;
 
   if (!ppmsr || !ppmsfp)
@@ -555,8 +556,18 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
             ms_log (0, "Truncated record at byte offset %" PRId64 ", end offset %" PRId64 ": %s\n",
                     msfp->streampos, msfp->endoffset, msfp->path);
 
-          retcode = MS_ENDOFFILE;
-          break;
+          /* Skip SKIPLEN bytes, a damaged record length may cover following records */
+          if (flags & MSF_SKIPNOTDATA)
+          {
+            truncated = 1;
+            msfp->readoffset += SKIPLEN;
+            msfp->streampos += SKIPLEN;
+          }
+          else
+          {
+            retcode = MS_ENDOFFILE;
+            break;
+          }
         }
       }
     } /* End of record detection */
@@ -564,7 +575,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     /* Finished when at end-of-stream and buffer contains less than MINRECLEN */
     if (MSFPATEND (msfp) && MSFPBUFLEN (msfp) < MINRECLEN)
     {
-      if (msfp->recordcount == 0)
+      if (msfp->recordcount == 0 && !truncated)
       {
         ms_log (2, "%s: No data records read, not SEED?\n", msfp->path);
         retcode = MS_NOTSEED;
-- 
2.43.0


From 6076cf7e283b35aa9c70eae6122af3d8edaf42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 11/83] fix: keep record detection within the supplied buffer

Detection read blockette headers and miniSEED 2 header fields beyond the end
of the buffer, and the sum of a miniSEED 3 record length could wrap around
and shift by more than the width of the type.
---
 libmseed/parseutils.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..618058e 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,7 +204,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
+    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
              + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
@@ -215,6 +215,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* Length cannot be determined without a complete fixed section of header */
+    if (recbuflen < MS2FSDH_LENGTH)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
@@ -224,7 +228,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)(blkt_offset + 4) <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -241,6 +245,14 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
       {
         foundlen = 1;
 
+        /* Safety check for a length beyond representation */
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 62)
+        {
+          ms_log (2, "Invalid record length of 2^%d in blockette 1000\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
         /* Field 3 of B1000 is a uint8_t value describing the record
          * length as 2^(value).  Calculate 2-raised with a shift. */
         reclen = (uint64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
-- 
2.43.0


From 2464de744c80de5658fbd61cd2fd04d9c6716022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 12/83] fix: validate a CRC without modifying the record

The CRC field of the caller's constant buffer was set to zero during the
calculation, a crash for read-only memory and a race when it is shared.
---
 libmseed/unpack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..83a6e3b 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -126,11 +126,15 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
   /* Validate the CRC */
   if (flags & MSF_VALIDATECRC)
   {
-    /* Save header CRC, set value to 0, calculate CRC, restore CRC */
+    /* Calculate CRC with the header value as 0, without modifying the record */
+    const uint8_t zerocrc[sizeof (uint32_t)] = {0};
+    int crcoffset = (int)((const char *)pMS3FSDH_CRC (record) - record);
+
     header_crc = HO4u (*pMS3FSDH_CRC (record), swapflag);
-    memset (pMS3FSDH_CRC(record), 0, sizeof(uint32_t));
-    calculated_crc = ms_crc32c ((const uint8_t*)record, reclen, 0);
-    *pMS3FSDH_CRC(record) = HO4u (header_crc, swapflag);
+    calculated_crc = ms_crc32c ((const uint8_t *)record, crcoffset, 0);
+    calculated_crc = ms_crc32c (zerocrc, sizeof (zerocrc), calculated_crc);
+    calculated_crc = ms_crc32c ((const uint8_t *)record + crcoffset + sizeof (zerocrc),
+                                reclen - crcoffset - (int)sizeof (zerocrc), calculated_crc);
 
     if (header_crc != calculated_crc)
     {
-- 
2.43.0


From c3623fe7ec60fd5c549cc82721ac986540a716ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/83] fix: keep miniSEED 2 blockettes and payload bounds
 within the record

Blockette lengths were smaller than the fields read, a blockette 1000 could
declare a record length beyond the supplied bytes, the data size could
underflow or be truncated to 16 bits and trailing null frames were tested at
the wrong offset.  String fields of a timing exception had no room for their
terminator.
---
 libmseed/libmseed.h   |  4 ++--
 libmseed/parseutils.c | 18 +++++++++++++---
 libmseed/unpack.c     | 50 +++++++++++++++++++++++++++++--------------
 3 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index b91b561..abe8f0c 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -888,8 +888,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 618058e..fb52f84 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -822,6 +822,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     while (blkt_offset != 0 && blkt_offset < maxreclen)
     {
       /* Every blockette has a similar 4 byte header: type and next */
+      /* Sanity check that the header and first field are contained in the record */
+      if ((blkt_offset + 6) > maxreclen)
+      {
+        ms_log (2, "%s: Blockette at offset %d does not fit in record (%d)\n",
+                sid, blkt_offset, maxreclen);
+        retval++;
+        break;
+      }
+
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
 
@@ -850,7 +859,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen || (blkt_type == 2000 && blkt_length < 15))
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -1172,7 +1181,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         char order[40];
 
         /* Calculate record size in bytes as 2^(blkt_1000->rec_len) */
-        b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        if (*pMS2B1000_RECLEN (record + blkt_offset) < 31)
+          b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
         /* Big or little endian? */
         if (*pMS2B1000_BYTEORDER (record + blkt_offset) == 0)
@@ -1287,7 +1297,9 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
           ms_log (0, "           number of headers: %u\n", *pMS2B2000_NUMHEADERS (record + blkt_offset));
 
           /* Crude display of the opaque data headers, hopefully printable */
-          if (details > 1)
+          if (details > 1 && blkt_length > 15 &&
+              HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) > 15 &&
+              HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) <= blkt_length)
             ms_log (0, "                     headers: %.*s\n",
                     (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
                     pMS2B2000_PAYLOAD (record + blkt_offset));
diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 83a6e3b..4c03e02 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -419,6 +419,14 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
          (blkt_offset < reclen) &&
          (blkt_offset < MAXRECLEN))
   {
+    /* Make sure blockette header, type and next, and first field are contained in the record */
+    if ((blkt_offset + 6) > reclen)
+    {
+      ms_log (2, "%s: Blockette at offset %d extends beyond record size, truncated?\n",
+              msr->sid, blkt_offset);
+      break;
+    }
+
     /* Every blockette has a similar 4 byte header: type and next */
     memcpy (&blkt_type, record + blkt_offset, 2);
     memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -825,14 +833,21 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
     {
       B1000offset = blkt_offset;
 
-      /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      /* Record length in bytes as 2^(B1000->reclen), limited to the specified length */
+      if (*pMS2B1000_RECLEN (record + blkt_offset) < 31 &&
+          ((int)1 << *pMS2B1000_RECLEN (record + blkt_offset)) >= MINRECLEN &&
+          ((int)1 << *pMS2B1000_RECLEN (record + blkt_offset)) <= reclen)
+      {
+        msr->reclen = (int)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      }
 
       /* Compare against the specified length */
-      if (msr->reclen != reclen && verbose)
+      if ((*pMS2B1000_RECLEN (record + blkt_offset) >= 31 ||
+           ((int)1 << *pMS2B1000_RECLEN (record + blkt_offset)) != reclen) &&
+          verbose)
       {
-        ms_log (1, "%s: Record length in Blockette 1000 (%d) != specified length (%d)\n",
-                msr->sid, msr->reclen, reclen);
+        ms_log (1, "%s: Record length in Blockette 1000 (2^%d) != specified length (%d)\n",
+                msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
       }
 
       msr->encoding = *pMS2B1000_ENCODING (record + blkt_offset);
@@ -952,7 +967,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   msr->datalength = HO2u (*pMS2FSDH_DATAOFFSET (record), msr->swapflag);
   if (msr->datalength > 0)
-    msr->datalength = msr->reclen - msr->datalength;
+    msr->datalength = (msr->datalength < (uint32_t)msr->reclen) ? msr->reclen - msr->datalength : 0;
 
   /* Determine byte order of the data and set the swapflag as needed;
      if no Blkt1000, assume the order is the same as the header */
@@ -1038,13 +1053,13 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
+    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) + msr->extralength;
     *datasize = msr->datalength;
   }
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+    *datasize = (msr->reclen > 0 && *dataoffset < (uint32_t)msr->reclen) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
@@ -1078,7 +1093,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
@@ -1087,7 +1102,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
@@ -1578,19 +1593,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1601,8 +1616,11 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
   case 400: /* Beam */
     blktlen = 16;
     break;
+  case 405: /* Beam Delay */
+    blktlen = 6;
+    break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From b892e98c594e2dd7682cf5b5ea1cba4db6fc427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 14/83] fix: release and report failures of extra header
 parsing and serialization

The parse state was lost when the extra headers could not be parsed, the
document of mseh_replace() was never freed and mseh_set_ptr_r() ignored a
failing serialization.
---
 libmseed/extraheaders.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..8491c26 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -58,6 +58,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   yyjson_read_flag flg = YYJSON_READ_NOFLAG;
   yyjson_read_err err;
   yyjson_alc alc = {_priv_malloc, _priv_realloc, _priv_free, NULL};
+  LM_PARSED_JSON *supplied = parsed;
 
   /* Allocate parsed state if needed */
   if (!parsed)
@@ -99,6 +100,11 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   {
     ms_log (2, "%s() Cannot parse extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
+
+    /* Free state allocated here, the caller has no reference to it */
+    if (!supplied)
+      libmseed_memory.free (parsed);
+
     return NULL;
   }
 
@@ -462,7 +468,9 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+      rv = false;
+
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
@@ -989,7 +997,8 @@ mseh_add_recenter_r (MS3Record *msr, const char *ptr, MSEHRecenter *recenter,
  * @param[in] msr ::MS3Record to generate extra headers for
  * @param[in] parsestate Internal parsed state associated with \a msr
  *
- * @returns Length of extra headers on success, otherwise a (negative) libmseed error code
+ * @returns Length of extra headers on success, otherwise a (negative) libmseed error code,
+ * MS_OUTOFRANGE when the headers contain values that cannot be represented.
  *
  * \sa mseh_set_ptr_r()
  ***************************************************************************/
@@ -1019,7 +1028,7 @@ mseh_serialize (MS3Record *msr, LM_PARSED_JSON **parsestate)
   {
     ms_log (2, "%s() Cannot write extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
-    return MS_GENERROR;
+    return (err.code == YYJSON_WRITE_ERROR_MEMORY_ALLOCATION) ? MS_GENERROR : MS_OUTOFRANGE;
   }
 
   if (serialsize > UINT16_MAX)
@@ -1027,7 +1036,7 @@ mseh_serialize (MS3Record *msr, LM_PARSED_JSON **parsestate)
     ms_log (2, "%s() New serialization size exceeds limit of %d bytes: %" PRIu64 "\n",
             __func__, UINT16_MAX, (uint64_t)serialsize);
     libmseed_memory.free(serialized);
-    return MS_GENERROR;
+    return MS_OUTOFRANGE;
   }
 
   /* Set new extra headers, replacing existing headers */
@@ -1116,6 +1125,8 @@ mseh_replace (MS3Record *msr, char *jsonstring)
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
 
+    yyjson_doc_free (doc);
+
     if (serialized == NULL)
     {
       ms_log (2, "%s() Cannot write extra header JSON: %s\n",
-- 
2.43.0


From 84cb43a433551b68b07b69597519ea0c17f842a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 15/83] fix: release the parse state and report failures when
 mapping blockettes to extra headers

Errors in the blockette loop leaked the parse state, failures to set or
serialize headers were ignored, and a repeated blockette 1001 leaked the
previous headers.
---
 libmseed/unpack.c | 94 +++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 4c03e02..d45b494 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -187,6 +187,7 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
     if ((msr->extra = (char *)libmseed_memory.malloc (msr->extralength + 1)) == NULL)
     {
       ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
+      msr->extralength = 0;
       return MS_GENERROR;
     }
 
@@ -283,6 +284,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   uint16_t blkt_type;
   uint16_t next_blkt;
 
+  int mapping_errors = 0;
   LM_PARSED_JSON *parsestate = NULL;
   MSEHEventDetection eventdetection;
   MSEHCalibration calibration;
@@ -357,51 +359,51 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (*pMS2FSDH_ACTFLAGS (record) & 0x01) /* Bit 0 */
     msr->flags |= 0x01;
   if (*pMS2FSDH_ACTFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x10) /* Bit 4 */
   {
     ival = 1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x20) /* Bit 5 */
   {
     ival = -1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
 
   /* Map I/O and clock flags */
   if (*pMS2FSDH_IOFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x20) /* Bit 5 */
     msr->flags |= 0x04;
 
   /* Map data quality flags */
   if (*pMS2FSDH_DQFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x20) /* Bit 5 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x80) /* Bit 7 */
     msr->flags |= 0x02;
 
@@ -409,7 +411,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (dval != 0.0)
   {
     dval = dval / 10000.0;
-    mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
+    mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
   }
 
   /* Traverse the blockettes */
@@ -489,7 +491,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -499,7 +501,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -522,7 +524,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -532,7 +534,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -545,7 +547,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -587,7 +589,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -600,7 +602,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -644,7 +646,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -657,7 +659,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -695,7 +697,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -708,7 +710,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -742,7 +744,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -757,7 +759,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -780,7 +782,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
     }
 
@@ -805,7 +807,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
-        return MS_GENERROR;
+        goto mapping_error;
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -821,12 +823,12 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto mapping_error;
       }
 
       /* Clock model maps to a single value at /FDSN/Clock/Model */
       ms_strncpcleantail (sval, pMS2B500_CLOCKMODEL (record + blkt_offset), 32);
-      mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
+      mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
     }
 
     else if (blkt_type == 1000)
@@ -858,7 +860,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1001offset = blkt_offset;
 
       /* Optimization: if no other extra headers yet, directly print this common value */
-      if (parsestate == NULL)
+      if (parsestate == NULL && msr->extra == NULL)
       {
         length = snprintf (sval, sizeof(sval), "{\"FDSN\":{\"Time\":{\"Quality\":%d}}}",
                            *pMS2B1001_TIMINGQUALITY (record + blkt_offset));
@@ -866,7 +868,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
         if (!(msr->extra = (char *)libmseed_memory.malloc (length + 1)))
         {
           ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
-          return MS_GENERROR;
+          goto mapping_error;
         }
         memcpy (msr->extra, sval, length + 1);
 
@@ -876,7 +878,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       else
       {
         ival = *pMS2B1001_TIMINGQUALITY (record + blkt_offset);
-        mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
+        mapping_errors |= mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
       }
     }
 
@@ -917,9 +919,19 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   /* Serialize extra header JSON structure and free parsed state */
   if (parsestate)
   {
-    mseh_serialize (msr, &parsestate);
+    /* Headers that cannot be represented are omitted, with a logged message */
+    if (mapping_errors || mseh_serialize (msr, &parsestate) == MS_GENERROR)
+    {
+      ms_log (2, "%s: Problem creating extra headers\n", msr->sid);
+      goto mapping_error;
+    }
+
     mseh_free_parsestate (&parsestate);
   }
+  else if (mapping_errors)
+  {
+    return MS_GENERROR;
+  }
 
   /* Check for a Blockette 1000 and log warning if not found */
   if (B1000offset == 0 && verbose > 1)
@@ -1011,6 +1023,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   }
 
   return MS_NOERROR;
+
+mapping_error:
+  mseh_free_parsestate (&parsestate);
+  return MS_GENERROR;
 } /* End of msr3_unpack_mseed2() */
 
 /*******************************************************************/ /**
-- 
2.43.0


From 66522b6965e9d4dac042c0a6e0f6a2f80b7225de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 16/83] fix: do not decode more samples than the payload
 contains

The fixed-length encodings read beyond the payload when the sample count
was too large, and the decoded samples were allocated before any check
and lost when the allocation failed.
---
 libmseed/unpack.c | 59 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index d45b494..1e6c959 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1221,6 +1221,14 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
     return MS_GENERROR;
   }
 
+  /* No encoding packs more than 7 samples into 4 bytes, do not allocate memory for more */
+  if ((uint64_t)msr->samplecnt > (uint64_t)datasize * 2)
+  {
+    ms_log (2, "%s: Data payload (%u bytes) cannot contain %" PRId64 " samples\n",
+            msr->sid, datasize, msr->samplecnt);
+    return MS_GENERROR;
+  }
+
   encoded = msr->record + dataoffset;
 
   /* Copy encoded data to aligned/malloc'd buffer if not aligned for sample size */
@@ -1242,26 +1250,29 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   /* (Re)Allocate space for the unpacked data */
   if (unpacksize > 0)
   {
+    void *newsamples;
+    size_t newsize = unpacksize;
+
     if (libmseed_prealloc_block_size)
     {
-      size_t current_size  = msr->datasize;
-      msr->datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
-      msr->datasize = current_size;
+      newsize = msr->datasize;
+      newsamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &newsize);
     }
     else
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
-      msr->datasize = unpacksize;
+      newsamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
     }
 
-    if (msr->datasamples == NULL)
+    if (newsamples == NULL)
     {
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
-      msr->datasize = 0;
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
       return MS_GENERROR;
     }
+
+    msr->datasamples = newsamples;
+    msr->datasize = newsize;
   }
   else
   {
@@ -1314,6 +1325,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   uint64_t decodedsize; /* byte size of decodeded samples */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
+  uint8_t encodedsize = 0; /* size of fixed-length encoded samples in bytes */
 
   if (!input || !output || !sampletype)
   {
@@ -1338,6 +1350,39 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     return MS_GENERROR;
   }
 
+  /* Check that the input contains all samples for encodings of a fixed length per sample */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedsize = 1;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedsize = 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedsize = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedsize = 4;
+    break;
+  case DE_FLOAT64:
+    encodedsize = 8;
+    break;
+  }
+
+  if (encodedsize && samplecount > inputsize / encodedsize)
+  {
+    ms_log (2, "%s: Encoded data (%" PRIu64 " bytes) is too short for %" PRIu64 " samples\n",
+            (sid) ? sid : "", inputsize, samplecount);
+    return MS_GENERROR;
+  }
+
   /* Decode data samples according to encoding */
   switch (encoding)
   {
-- 
2.43.0


From 855ce3c3516baf43ab6ef04a5bbe9f5296b3c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 17/83] fix: terminate the extra headers of a duplicated record

---
 libmseed/msrutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 763bbd9..1a4fdd8 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -146,7 +146,7 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
   if (msr->extralength > 0 && msr->extra)
   {
     /* Allocate memory for new FSDH structure */
-    if ((dupmsr->extra = (char *)libmseed_memory.malloc (msr->extralength)) == NULL)
+    if ((dupmsr->extra = (char *)libmseed_memory.malloc (msr->extralength + 1)) == NULL)
     {
       ms_log (2, "Error allocating memory\n");
       msr3_free (&dupmsr);
@@ -154,6 +154,7 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
     }
 
     memcpy (dupmsr->extra, msr->extra, msr->extralength);
+    dupmsr->extra[msr->extralength] = '\0';
 
     if (dupmsr->extra)
       dupmsr->extralength = msr->extralength;
-- 
2.43.0


From ed14246fb3cfb43d0c2e806f2bfe1eb4b2944761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 18/83] fix: report output that could not be written or closed

msr3_writemseed() and mstl3_writemseed() returned a record count although
records were not stored, and closed standard output.
---
 libmseed/fileutils.c | 67 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index bd35352..f89dc23 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -885,21 +885,56 @@ ms3_url_freeheaders (void)
 } /* End of ms3_url_freeheaders() */
 
 
+/***************************************************************************
+ *
+ * Internal record output state
+ ***************************************************************************/
+typedef struct
+{
+  FILE *ofp;
+  int8_t error;
+} MSRecordOutput;
+
 /***************************************************************************
  *
  * Internal record handler.  The handler data should be a pointer to
- * an open file descriptor to which records will be written.
+ * an MSRecordOutput with an open file to which records will be written.
  *
  ***************************************************************************/
 static void
-ms_record_handler_int (char *record, int reclen, void *ofp)
+ms_record_handler_int (char *record, int reclen, void *handlerdata)
 {
-  if (fwrite (record, reclen, 1, (FILE *)ofp) != 1)
+  MSRecordOutput *output = (MSRecordOutput *)handlerdata;
+
+  /* Do not write anything following a failed write */
+  if (output->error)
+    return;
+
+  if (fwrite (record, reclen, 1, output->ofp) != 1)
   {
     ms_log (2, "Error writing to output file\n");
+    output->error = 1;
   }
 } /* End of ms_record_handler_int() */
 
+/***************************************************************************
+ *
+ * Complete output: write buffered data and close the file, unless stdout.
+ *
+ * Returns 0 when all data was written and -1 on error.
+ *
+ ***************************************************************************/
+static int
+ms_finish_output_int (MSRecordOutput *output, const char *mspath)
+{
+  int rv = (output->ofp == stdout) ? fflush (output->ofp) : fclose (output->ofp);
+
+  if (rv)
+    ms_log (2, "Cannot complete writing output file %s: %s\n", mspath, strerror (errno));
+
+  return (rv || output->error) ? -1 : 0;
+} /* End of ms_finish_output_int() */
+
 /**********************************************************************/ /**
  * @brief Write miniSEED from an ::MS3Record container to a file
  *
@@ -929,7 +964,7 @@ int64_t
 msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
                  uint32_t flags, int8_t verbose)
 {
-  FILE *ofp;
+  MSRecordOutput output = {NULL, 0};
   const char *perms     = (overwrite) ? "wb" : "ab";
   int64_t packedrecords = 0;
 
@@ -942,19 +977,20 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   /* Open output file or use stdout */
   if (strcmp (mspath, "-") == 0)
   {
-    ofp = stdout;
+    output.ofp = stdout;
   }
-  else if ((ofp = fopen (mspath, perms)) == NULL)
+  else if ((output.ofp = fopen (mspath, perms)) == NULL)
   {
     ms_log (2, "Cannot open output file %s: %s\n", mspath, strerror (errno));
     return -1;
   }
 
   /* Pack the MS3Record */
-  packedrecords = msr3_pack (msr, &ms_record_handler_int, ofp, NULL, flags, verbose - 1);
+  packedrecords = msr3_pack (msr, &ms_record_handler_int, &output, NULL, flags, verbose - 1);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Complete output and return record count */
+  if (ms_finish_output_int (&output, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of msr3_writemseed() */
@@ -990,7 +1026,7 @@ int64_t
 mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
                   int maxreclen, int8_t encoding, uint32_t flags, int8_t verbose)
 {
-  FILE *ofp;
+  MSRecordOutput output = {NULL, 0};
   const char *perms     = (overwrite) ? "wb" : "ab";
   int64_t packedrecords = 0;
 
@@ -1003,9 +1039,9 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   /* Open output file or use stdout */
   if (strcmp (mspath, "-") == 0)
   {
-    ofp = stdout;
+    output.ofp = stdout;
   }
-  else if ((ofp = fopen (mspath, perms)) == NULL)
+  else if ((output.ofp = fopen (mspath, perms)) == NULL)
   {
     ms_log (2, "Cannot open output file %s: %s\n", mspath, strerror (errno));
     return -1;
@@ -1017,11 +1053,12 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   /* Pack all data */
   flags |= MSF_FLUSHDATA;
 
-  packedrecords = mstl3_pack (mstl, &ms_record_handler_int, ofp, maxreclen,
+  packedrecords = mstl3_pack (mstl, &ms_record_handler_int, &output, maxreclen,
                               encoding, NULL, flags, verbose, NULL);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Complete output and return record count */
+  if (ms_finish_output_int (&output, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of mstl3_writemseed() */
-- 
2.43.0


From 57c040438fad131fd8795326cb44969ed74e147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 19/83] fix: keep the sample buffer of a record when resizing
 it fails

---
 libmseed/msrutils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 1a4fdd8..6239483 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -307,6 +307,7 @@ msr3_resize_buffer (MS3Record *msr)
 {
   uint8_t samplesize = 0;
   size_t datasize;
+  void *datasamples;
 
   if (!msr)
   {
@@ -322,14 +323,15 @@ msr3_resize_buffer (MS3Record *msr)
 
     if (msr->datasize > datasize)
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
+      datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
 
-      if (msr->datasamples == NULL)
+      if (datasamples == NULL)
       {
         ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
         return MS_GENERROR;
       }
 
+      msr->datasamples = datasamples;
       msr->datasize = datasize;
     }
   }
-- 
2.43.0


From b9ccc5e0adb7676e7e830d90fecc351fea5d4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 20/83] fix: do not treat a trailing '@' of a path as a byte
 range

---
 libmseed/fileutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index f89dc23..c4831e5 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -1119,6 +1119,10 @@ parse_pathname_range (const char *string, int64_t *start, int64_t *end)
         return NULL;
     }
 
+    /* At least one of start and end is required for a range */
+    if (!startdigits && !enddigits)
+      return NULL;
+
     /* Convert start and end values to numbers if non-zero length */
     if (start && startdigits)
       *start = (int64_t) strtoull (startstr, NULL, 10);
-- 
2.43.0


From 576c72078c135154cb15b82548849b1c11fd0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 21/83] fix: treat sample rates within a given tolerance as
 similar

IS_SAMPRATE_SIMILAR() was inverted when a tolerance was supplied.
---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..a7f1cba 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 0b16318ffe7ce90e3c56facc4d50200053bb85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 22/83] fix: keep the first segment pointer valid when healing
 removes that segment

---
 libmseed/tracelist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a7f1cba..910df5f 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -627,7 +627,9 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
             return NULL;
           }
 
-          /* Shift last segment pointer if it's going to be removed */
+          /* Shift first and last segment pointers if they are going to be removed */
+          if (segafter == id->first)
+            id->first = id->first->next;
           if (segafter == id->last)
             id->last = id->last->prev;
 
-- 
2.43.0


From daefcf084c334f448123a6688f0a723fff23a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 23/83] fix: allow freeing a trace list that was never created

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 910df5f..a37c963 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -95,7 +95,7 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
   MS3RecordPtr *recordptr;
   MS3RecordPtr *nextrecordptr;
 
-  if (!ppmstl)
+  if (!ppmstl || !*ppmstl)
     return;
 
   /* Free any associated traces */
-- 
2.43.0


From e1caf7aead05235251803dd489a4c7a9d69d797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 24/83] fix: leave a trace list unchanged when adding a record
 to it fails

A failed allocation while adding a record leaked the new entries, linked
incomplete ones, lost the segment's buffer size or counted the record in part.
---
 libmseed/tracelist.c | 251 +++++++++++++++++++++++++------------------
 1 file changed, 148 insertions(+), 103 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a37c963..5ddfe63 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -31,6 +31,11 @@ MS3TraceSeg *mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t
 MS3TraceSeg *mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2);
 MS3RecordPtr *mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence);
 
+static int mstl3_reserve_samples (MS3TraceSeg *seg, int64_t addsamples, char sampletype);
+static MS3TraceSeg *mstl3_newseg (const MS3Record *msr, nstime_t endtime, MS3RecordPtr **pprecptr);
+static MS3TraceSeg *mstl3_extendseg (MS3TraceSeg *seg, MS3TraceSeg *healseg, const MS3Record *msr,
+                                     nstime_t endtime, MS3RecordPtr **pprecptr, int8_t whence);
+
 static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
@@ -423,18 +428,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     id->latest = endtime;
     id->numsegments = 1;
 
-    if (!(seg = mstl3_msr2seg (msr, endtime)))
+    if (!(seg = mstl3_newseg (msr, endtime, pprecptr)))
     {
+      libmseed_memory.free (id);
       return NULL;
     }
     id->first = id->last = seg;
 
-    /* Add MS3RecordPtr if requested */
-    if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
-    {
-      return NULL;
-    }
-
     /* Add new MS3TraceID to MS3TraceList */
     if (mstl3_addID (mstl, id, previd) == NULL)
     {
@@ -484,22 +484,16 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     if (lastgap <= nstimetol && lastgap >= nnstimetol &&
         IS_SAMPRATE_SIMILAR (sampratehz, id->last->samprate, sampratetol))
     {
-      if (!mstl3_addmsrtoseg (id->last, msr, endtime, 1))
+      if (!(seg = mstl3_extendseg (id->last, NULL, msr, endtime, pprecptr, 1)))
         return NULL;
 
-      seg = id->last;
-
       if (endtime > id->latest)
         id->latest = endtime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
-        return NULL;
     }
     /* Record coverage is after all other coverage */
     else if ((msr->starttime - nsperiod - nstimetol) > id->latest)
     {
-      if (!(seg = mstl3_msr2seg (msr, endtime)))
+      if (!(seg = mstl3_newseg (msr, endtime, pprecptr)))
         return NULL;
 
       /* Add to end of list */
@@ -510,15 +504,11 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (endtime > id->latest)
         id->latest = endtime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage is before all other coverage */
     else if ((endtime + nsperiod + nstimetol) < id->earliest)
     {
-      if (!(seg = mstl3_msr2seg (msr, endtime)))
+      if (!(seg = mstl3_newseg (msr, endtime, pprecptr)))
         return NULL;
 
       /* Add to beginning of list */
@@ -529,26 +519,16 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (msr->starttime < id->earliest)
         id->earliest = msr->starttime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage fits at beginning of first segment */
     else if (firstgap <= nstimetol && firstgap >= nnstimetol &&
              IS_SAMPRATE_SIMILAR (sampratehz, id->first->samprate, sampratetol))
     {
-      if (!mstl3_addmsrtoseg (id->first, msr, endtime, 2))
+      if (!(seg = mstl3_extendseg (id->first, NULL, msr, endtime, pprecptr, 2)))
         return NULL;
 
-      seg = id->first;
-
       if (msr->starttime < id->earliest)
         id->earliest = msr->starttime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 2)))
-        return NULL;
     }
     /* Search complete segment list for matches */
     else
@@ -607,26 +587,17 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       /* Add MS3Record coverage to end of segment before */
       if (segbefore)
       {
-        if (!mstl3_addmsrtoseg (segbefore, msr, endtime, 1))
-        {
-          return NULL;
-        }
+        /* Merge two segments that now fit if autohealing */
+        MS3TraceSeg *healseg = (autoheal && segbefore != segafter) ? segafter : NULL;
 
-        /* Add MS3RecordPtr if requested */
-        if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segbefore, msr, endtime, 1)))
+        if (!mstl3_extendseg (segbefore, healseg, msr, endtime, pprecptr, 1))
         {
           return NULL;
         }
 
-        /* Merge two segments that now fit if autohealing */
-        if (autoheal && segafter && segbefore != segafter)
+        /* Remove the segment merged into segbefore */
+        if (healseg)
         {
-          /* Add segafter coverage to segbefore */
-          if (!mstl3_addsegtoseg (segbefore, segafter))
-          {
-            return NULL;
-          }
-
           /* Shift first and last segment pointers if they are going to be removed */
           if (segafter == id->first)
             id->first = id->first->next;
@@ -659,30 +630,16 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       /* Add MS3Record coverage to beginning of segment after */
       else if (segafter)
       {
-        if (!mstl3_addmsrtoseg (segafter, msr, endtime, 2))
-        {
-          return NULL;
-        }
-
-        /* Add MS3RecordPtr if requested */
-        if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segafter, msr, endtime, 2)))
+        if (!(seg = mstl3_extendseg (segafter, NULL, msr, endtime, pprecptr, 2)))
         {
           return NULL;
         }
-
-        seg = segafter;
       }
       /* Add MS3Record coverage to new segment */
       else
       {
         /* Create new segment */
-        if (!(seg = mstl3_msr2seg (msr, endtime)))
-        {
-          return NULL;
-        }
-
-        /* Add MS3RecordPtr if requested */
-        if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
+        if (!(seg = mstl3_newseg (msr, endtime, pprecptr)))
         {
           return NULL;
         }
@@ -1020,6 +977,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(samplesize = ms_samplesize (msr->sampletype)))
     {
       ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
+      libmseed_memory.free (seg);
       return NULL;
     }
 
@@ -1028,6 +986,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(seg->datasamples = libmseed_memory.malloc ((size_t) (datasize))))
     {
       ms_log (2, "Error allocating memory\n");
+      libmseed_memory.free (seg);
       return NULL;
     }
     seg->datasize = datasize;
@@ -1039,6 +998,131 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
   return seg;
 } /* End of mstl3_msr2seg() */
 
+/***************************************************************************
+ * Make sure a MS3TraceSeg has room for a number of additional samples of
+ * the specified type. The samples in the segment are kept on error.
+ *
+ * Return 0 on success and -1 on error.
+ *
+ * \ref MessageOnError - this function logs a message on error
+ ***************************************************************************/
+static int
+mstl3_reserve_samples (MS3TraceSeg *seg, int64_t addsamples, char sampletype)
+{
+  void *newdatasamples = NULL;
+  size_t newdatasize = 0;
+  int samplesize = 0;
+
+  if (sampletype != seg->sampletype)
+  {
+    ms_log (2, "Sample type (%c) does not match segment sample type (%c)\n",
+            sampletype, seg->sampletype);
+    return -1;
+  }
+
+  if (!(samplesize = ms_samplesize (sampletype)))
+  {
+    ms_log (2, "Unknown sample size for sample type: %c\n", sampletype);
+    return -1;
+  }
+
+  newdatasize = (size_t) (seg->numsamples + addsamples) * samplesize;
+
+  if (seg->datasamples && newdatasize <= seg->datasize)
+    return 0;
+
+  if (libmseed_prealloc_block_size)
+  {
+    size_t current_size = seg->datasize;
+    newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &current_size);
+    if (newdatasamples)
+      seg->datasize = current_size;
+  }
+  else
+  {
+    newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
+    if (newdatasamples)
+      seg->datasize = newdatasize;
+  }
+
+  if (!newdatasamples)
+  {
+    ms_log (2, "Error allocating memory\n");
+    return -1;
+  }
+
+  seg->datasamples = newdatasamples;
+
+  return 0;
+} /* End of mstl3_reserve_samples() */
+
+/***************************************************************************
+ * Create an MS3TraceSeg structure from an MS3Record structure including,
+ * if pprecptr is not NULL, a record list with an entry for the record.
+ *
+ * Return a pointer to a MS3TraceSeg otherwise NULL on error.
+ *
+ * \ref MessageOnError - this function logs a message on error
+ ***************************************************************************/
+static MS3TraceSeg *
+mstl3_newseg (const MS3Record *msr, nstime_t endtime, MS3RecordPtr **pprecptr)
+{
+  MS3TraceSeg *seg;
+
+  if (!(seg = mstl3_msr2seg (msr, endtime)))
+    return NULL;
+
+  /* Add MS3RecordPtr if requested */
+  if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
+  {
+    if (seg->datasamples)
+      libmseed_memory.free (seg->datasamples);
+    libmseed_memory.free (seg);
+    return NULL;
+  }
+
+  return seg;
+} /* End of mstl3_newseg() */
+
+/***************************************************************************
+ * Add data coverage from a MS3Record structure, followed by the coverage of
+ * healseg if not NULL, to a MS3TraceSeg structure including, if pprecptr is
+ * not NULL, an entry for the record in the record list.  See
+ * mstl3_addmsrtoseg() for whence.
+ *
+ * Everything that can fail is done first, the segments are not changed on
+ * error.
+ *
+ * Return a pointer to a MS3TraceSeg otherwise NULL on error.
+ *
+ * \ref MessageOnError - this function logs a message on error
+ ***************************************************************************/
+static MS3TraceSeg *
+mstl3_extendseg (MS3TraceSeg *seg, MS3TraceSeg *healseg, const MS3Record *msr,
+                 nstime_t endtime, MS3RecordPtr **pprecptr, int8_t whence)
+{
+  int64_t msrsamples = (msr->datasamples && msr->numsamples > 0) ? msr->numsamples : 0;
+  int64_t healsamples = (healseg && healseg->datasamples && healseg->numsamples > 0) ? healseg->numsamples : 0;
+
+  if (msrsamples && mstl3_reserve_samples (seg, msrsamples + healsamples, msr->sampletype))
+    return NULL;
+
+  if (healsamples && mstl3_reserve_samples (seg, msrsamples + healsamples, healseg->sampletype))
+    return NULL;
+
+  /* Add MS3RecordPtr if requested */
+  if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, whence)))
+    return NULL;
+
+  if (!mstl3_addmsrtoseg (seg, msr, endtime, whence))
+    return NULL;
+
+  if (healseg && !mstl3_addsegtoseg (seg, healseg))
+    return NULL;
+
+  return seg;
+} /* End of mstl3_extendseg() */
+
 /***************************************************************************
  * Add data coverage from a MS3Record structure to a MS3TraceSeg structure.
  *
@@ -1055,8 +1139,6 @@ MS3TraceSeg *
 mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence)
 {
   int samplesize = 0;
-  void *newdatasamples = NULL;
-  size_t newdatasize = 0;
 
   if (!seg || !msr)
   {
@@ -1080,28 +1162,10 @@ mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int
       return NULL;
     }
 
-    newdatasize = (seg->numsamples + msr->numsamples) * samplesize;
-
-    if (libmseed_prealloc_block_size)
-    {
-      size_t current_size = seg->datasize;
-      newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &current_size);
-      seg->datasize = current_size;
-    }
-    else
+    if (mstl3_reserve_samples (seg, msr->numsamples, msr->sampletype))
     {
-      newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
-      seg->datasize = newdatasize;
-    }
-
-    if (!newdatasamples)
-    {
-      ms_log (2, "Error allocating memory\n");
-      seg->datasize = 0;
       return NULL;
     }
-
-    seg->datasamples = newdatasamples;
   }
 
   /* Add coverage to end of segment */
@@ -1158,8 +1222,6 @@ MS3TraceSeg *
 mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
 {
   int samplesize = 0;
-  void *newdatasamples = NULL;
-  size_t newdatasize = 0;
 
   if (!seg1 || !seg2)
   {
@@ -1183,28 +1245,10 @@ mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
       return NULL;
     }
 
-    newdatasize = (seg1->numsamples + seg2->numsamples) * samplesize;
-
-    if (libmseed_prealloc_block_size)
-    {
-      size_t current_size = seg1->datasize;
-      newdatasamples = libmseed_memory_prealloc (seg1->datasamples, newdatasize, &current_size);
-      seg1->datasize = current_size;
-    }
-    else
-    {
-      newdatasamples = libmseed_memory.realloc (seg1->datasamples, newdatasize);
-      seg1->datasize = newdatasize;
-    }
-
-    if (!newdatasamples)
+    if (mstl3_reserve_samples (seg1, seg2->numsamples, seg2->sampletype))
     {
-      ms_log (2, "Error allocating memory\n");
-      seg1->datasize = 0;
       return NULL;
     }
-
-    seg1->datasamples = newdatasamples;
   }
 
   /* Add seg2 coverage to end of seg1 */
@@ -1308,6 +1352,7 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
     if (seg->recordlist == NULL)
     {
       ms_log (2, "Cannot allocate memory\n");
+      msr3_free (&recordptr->msr);
       libmseed_memory.free (recordptr);
       return NULL;
     }
-- 
2.43.0


From 6d5e23c00459fada31c8a8395f01998764eefac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:30 +0000
Subject: [PATCH 25/83] fix: include a last record of minimum length when
 reading a buffer

Also release the record if its data bounds cannot be determined.
---
 libmseed/tracelist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 5ddfe63..acc2673 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -855,7 +855,7 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
   if ((flags & MSF_UNPACKDATA) && selections)
     pflags &= ~(MSF_UNPACKDATA);
 
-  while ((bufferlength - offset) > MINRECLEN)
+  while ((bufferlength - offset) >= MINRECLEN)
   {
     parsevalue = msr3_parse (buffer + offset, bufferlength - offset, &msr, pflags, verbose);
 
@@ -916,7 +916,10 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
-- 
2.43.0


From 084f234b601aeb6ac3209c826cd286c1882a264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:43 +0000
Subject: [PATCH 26/83] fix: unpack a record list with the payload byte order
 and all samples of each record

Use only the payload swap flag, the same fallback encoding as immediate
unpacking, require every record to give all of its samples, check the data
offset and keep resources when opening a file or growing the buffer fails.
---
 libmseed/tracelist.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index acc2673..9056f82 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1670,6 +1670,8 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
   char *filebuffer = NULL;
   int64_t filebuffersize = 0;
+  void *newbuffer = NULL;
+  uint8_t encoding;
 
   uint64_t outputoffset = 0;
   uint64_t decodedsize = 0;
@@ -1703,10 +1705,13 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
   recordptr = seg->recordlist->first;
 
-  if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, &samplesize, &sampletype))
+  /* Fallback encoding for when encoding is unknown, as msr3_unpack_data() */
+  encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+  if (ms_encoding_sizetype (encoding, &samplesize, &sampletype))
   {
     ms_log (2, "%s: Cannot determine sample size and type for encoding: %u\n",
-            id->sid, recordptr->msr->encoding);
+            id->sid, encoding);
     return -1;
   }
 
@@ -1753,9 +1758,11 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       continue;
     }
 
-    if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, NULL, &recsampletype))
+    encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+    if (ms_encoding_sizetype (encoding, NULL, &recsampletype))
     {
-      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, recordptr->msr->encoding);
+      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, encoding);
 
       totalunpackedsamples = -1;
       break;
@@ -1769,6 +1776,14 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       break;
     }
 
+    if (recordptr->msr->reclen < 0 || recordptr->dataoffset >= (uint32_t)recordptr->msr->reclen)
+    {
+      ms_log (2, "%s: Data offset value is not valid: %u\n", id->sid, recordptr->dataoffset);
+
+      totalunpackedsamples = -1;
+      break;
+    }
+
     /* Decode data from buffer */
     if (recordptr->bufferptr)
     {
@@ -1808,6 +1823,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
+            libmseed_memory.free (filelistptr);
             totalunpackedsamples = -1;
             break;
           }
@@ -1824,7 +1840,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       /* Allocate memory if needed, over-allocating (x2) to minimize reallocation */
       if (recordptr->msr->reclen > filebuffersize)
       {
-        if ((filebuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
+        if ((newbuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
         {
           ms_log (2, "%s: Cannot allocate memory for file read buffer\n", id->sid);
 
@@ -1832,6 +1848,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           break;
         }
 
+        filebuffer = newbuffer;
         filebuffersize = recordptr->msr->reclen * 2;
       }
 
@@ -1872,12 +1889,15 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
     /* Decode data from buffer */
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
-                                      (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
+                                      encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
-                                      &sampletype, recordptr->msr->swapflag, id->sid, verbose);
+                                      &sampletype, recordptr->msr->swapflag & MSSWAP_PAYLOAD, id->sid, verbose);
 
-    if (unpackedsamples < 0)
+    if (unpackedsamples != recordptr->msr->samplecnt)
     {
+      ms_log (2, "%s: Cannot unpack all samples of record, expected %" PRId64 ", unpacked %" PRId64 "\n",
+              id->sid, recordptr->msr->samplecnt, unpackedsamples);
+
       totalunpackedsamples = -1;
       break;
     }
-- 
2.43.0


From 6c3341207cc8228cd5531eedb88ab0a552ba162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 27/83] fix: unpack record lists read from file:// paths and
 byte ranges of files

---
 libmseed/tracelist.c | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 9056f82..cae5f05 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -36,6 +36,8 @@ static MS3TraceSeg *mstl3_newseg (const MS3Record *msr, nstime_t endtime, MS3Rec
 static MS3TraceSeg *mstl3_extendseg (MS3TraceSeg *seg, MS3TraceSeg *healseg, const MS3Record *msr,
                                      nstime_t endtime, MS3RecordPtr **pprecptr, int8_t whence);
 
+static FILE *lm_open_recordfile (const char *filename);
+
 static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
@@ -1819,7 +1821,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
             break;
           }
 
-          if ((filelistptr->fileptr = fopen (recordptr->filename, "rb")) == NULL)
+          if ((filelistptr->fileptr = lm_open_recordfile (recordptr->filename)) == NULL)
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
@@ -2525,3 +2527,41 @@ lm_random_height (uint8_t maximum, uint64_t *state)
 
   return height;
 }
+
+/***************************************************************************
+ * Open the file named in a record list entry.  The name is the path given
+ * when the record was read, which may include a "file://" scheme and, with
+ * MSF_PNAMERANGE, a byte range suffix ("@start-end").
+ *
+ * Return a stream on success and NULL on error.
+ ***************************************************************************/
+static FILE *
+lm_open_recordfile (const char *filename)
+{
+  FILE *fp;
+  const char *range;
+  char *name;
+
+  if (!strncasecmp (filename, "file://", 7))
+    filename += 7;
+
+  if ((fp = fopen (filename, "rb")) || errno != ENOENT)
+    return fp;
+
+  /* Retry without a byte range suffix, if any */
+  range = strrchr (filename, '@');
+  if (range == NULL || range[1 + strspn (range + 1, "0123456789-")] != '\0')
+    return NULL;
+
+  if ((name = (char *)libmseed_memory.malloc ((size_t) (range - filename) + 1)) == NULL)
+    return NULL;
+
+  memcpy (name, filename, (size_t) (range - filename));
+  name[range - filename] = '\0';
+
+  fp = fopen (name, "rb");
+
+  libmseed_memory.free (name);
+
+  return fp;
+} /* End of lm_open_recordfile() */
-- 
2.43.0


From 11f83d741ac6965f7006a43a3f07389006454f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:37 +0000
Subject: [PATCH 28/83] fix: release record buffers when packing fails

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..f06cc2e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -348,6 +350,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -668,7 +671,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -698,6 +704,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From 34674cb6c5930f6662acd6fe7e40db92ad0b3351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 29/83] fix: fail to pack when a record cannot hold a sample

---
 libmseed/pack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f06cc2e..6013635 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -306,7 +306,8 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    /* Packing no samples is an error, the loop would never end */
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
@@ -769,7 +770,8 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    /* Packing no samples is an error, the loop would never end */
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
-- 
2.43.0


From 32d461adbc6b71fc9cf34db6d2b3d5511a6cd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 30/83] fix: update the microsecond offset of each packed
 miniSEED 2 record

---
 libmseed/pack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 6013635..27b9006 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -834,6 +834,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_MIN (rawrec)  = min;
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+
+    /* Update microsecond offset if there is a Blockette 1001, always following the 1000 */
+    if (HO2u (*pMS2B1000_NEXT (rawrec + 48), swapflag) == 56 &&
+        HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001)
+      *pMS2B1001_MICROSECOND (rawrec + 56) = (int8_t)((nsec / 1000) % 100);
   }
 
   if (verbose >= 2)
-- 
2.43.0


From 544f4ecc27300f8ac72507ac6d8e287e03345cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 31/83] fix: limit MEDSNR values to the size of the blockette
 field

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 27b9006..a51b5ce 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1335,7 +1335,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         {
           yyjson_arr_iter_init (ehsubarr, &ehsubiter);
 
-          while ((ehsubiterval = yyjson_arr_iter_next (&ehsubiter)))
+          while (idx < 6 && (ehsubiterval = yyjson_arr_iter_next (&ehsubiter)))
           {
             if (!yyjson_is_num (ehsubiterval))
               continue;
-- 
2.43.0


From 6604824fe74dbaf22a5dbf9239a9983a23c08792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 32/83] fix: refuse sample values that INT16 encoding cannot
 represent

---
 libmseed/packdata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index 8187f94..4f5213b 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -75,6 +75,12 @@ msr_encode_int16 (int32_t *input, uint64_t samplecount, int16_t *output,
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int16_t); idx++)
   {
+    if (input[idx] < INT16_MIN || input[idx] > INT16_MAX)
+    {
+      ms_log (2, "Sample value %d is out of range for INT16 encoding\n", input[idx]);
+      return -1;
+    }
+
     output[idx] = (int16_t)input[idx];
 
     if (swapflag)
-- 
2.43.0


From 7b99d1cebb711e3590ba4ba87b5da9e62229f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 33/83] fix: check the destination buffer for a whole repacked
 record, round negative time corrections

---
 libmseed/pack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a51b5ce..0105803 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -442,10 +442,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen < (uint32_t)dataoffset + origdatasize)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%u)\n",
+            msr->sid, recbuflen, (uint32_t)dataoffset + origdatasize);
     return -1;
   }
 
@@ -1103,7 +1103,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From 82a359ebdcfa7ccb7e05c2018f830b2c2ab4da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:49 +0000
Subject: [PATCH 34/83] fix: repack payloads in the byte order of miniSEED 3

---
 libmseed/pack.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 0105803..dc09692 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -401,6 +401,8 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   int dataoffset;
   uint32_t origdataoffset;
   uint32_t origdatasize;
+  uint32_t swapsize;
+  uint32_t idx;
   uint32_t crc;
   uint32_t reclen;
   int8_t swapflag;
@@ -454,6 +456,34 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Copy encoded data into record */
   memcpy (record + dataoffset, msr->record + origdataoffset, origdatasize);
 
+  /* Swap the payload if not in the byte order of miniSEED 3: big endian for
+   * Steim encodings, little endian for others. */
+  swapsize = (msr->encoding == DE_INT16) ? 2 : (msr->encoding == DE_FLOAT64) ? 8 : 4;
+  swapflag = (msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0;
+
+  if (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2)
+  {
+    if (swapflag == (ms_bigendianhost () ? 1 : 0))
+    {
+      ms_log (2, "%s: Cannot repack a Steim encoded payload that is not big endian\n", msr->sid);
+      return -1;
+    }
+  }
+  else if (swapflag != (ms_bigendianhost () ? 1 : 0) &&
+           (msr->encoding == DE_INT16 || msr->encoding == DE_INT32 ||
+            msr->encoding == DE_FLOAT32 || msr->encoding == DE_FLOAT64))
+  {
+    for (idx = 0; idx + swapsize <= origdatasize; idx += swapsize)
+    {
+      if (swapsize == 2)
+        ms_gswap2 (record + dataoffset + idx);
+      else if (swapsize == 4)
+        ms_gswap4 (record + dataoffset + idx);
+      else
+        ms_gswap8 (record + dataoffset + idx);
+    }
+  }
+
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
-- 
2.43.0


From ce34ab969425928929a49ee03717ab672ee1ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 35/83] fix: print SYNC lines for any source identifier that
 fits a record

---
 libmseed/tracelist.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index cae5f05..d711edf 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2328,10 +2328,10 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char starttime[40];
   char endtime[40];
   char yearday[32];
-  char net[11] = {0};
-  char sta[11] = {0};
-  char loc[11] = {0};
-  char chan[11] = {0};
+  char net[LM_SIDLEN];
+  char sta[LM_SIDLEN];
+  char loc[LM_SIDLEN];
+  char chan[LM_SIDLEN];
   time_t now;
   struct tm *nt;
 
@@ -2354,6 +2354,7 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   id = mstl->traces.next[0];
   while (id)
   {
+    net[0] = sta[0] = loc[0] = chan[0] = '\0';
     ms_sid2nslc (id->sid, net, sta, loc, chan);
 
     /* Loop through segment list */
-- 
2.43.0


From 044a343bc6ed8eac1005dadc9260558a3575bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:09 +0000
Subject: [PATCH 36/83] fix: report failures of packing a trace list, keep its
 times and the caller's extra headers

---
 libmseed/tracelist.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index d711edf..1450283 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2018,6 +2018,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   int64_t totalpackedsamples = 0;
   int segpackedrecords = 0;
   int64_t segpackedsamples = 0;
+  int packerror = 0;
+  void *newdatasamples = NULL;
   int samplesize;
   size_t bufsize;
   size_t extralength;
@@ -2050,15 +2052,16 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
 
   if (extra)
   {
-    msr->extra = extra;
     extralength = strlen(extra);
 
     if (extralength > UINT16_MAX)
     {
       ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
+      msr3_free (&msr);
       return -1;
     }
 
+    msr->extra = extra;
     msr->extralength = (uint16_t)extralength;
   }
 
@@ -2107,15 +2110,15 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       /* If MSF_MAINTAINMSTL not set, adjust segment start time and reduce data array and sample counts */
       if (!(flags & MSF_MAINTAINMSTL) && segpackedsamples > 0)
       {
-        /* Calculate new start time, shortcut when all samples have been packed */
-        if (segpackedsamples == seg->numsamples)
-          seg->starttime = seg->endtime;
-        else
-          seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
+        /* Calculate new start time, that of the sample following the packed samples */
+        seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
 
         if (!(samplesize = ms_samplesize (seg->sampletype)))
         {
           ms_log (2, "Unknown sample size for sample type: %c\n", seg->sampletype);
+          msr->datasamples = NULL;
+          msr->extra = NULL;
+          msr3_free (&msr);
           return -1;
         }
 
@@ -2130,15 +2133,12 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
           /* Reallocate buffer for reduced size needed, only if not pre-allocating */
           if (libmseed_prealloc_block_size == 0)
           {
-            seg->datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
-
-            if (seg->datasamples == NULL)
+            /* Keep the larger buffer if it cannot be reduced */
+            if ((newdatasamples = libmseed_memory.realloc (seg->datasamples, bufsize)))
             {
-              ms_log (2, "Cannot (re)allocate datasamples buffer\n");
-              return -1;
+              seg->datasamples = newdatasamples;
+              seg->datasize = bufsize;
             }
-
-            seg->datasize = bufsize;
           }
         }
         else
@@ -2153,23 +2153,28 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         seg->numsamples -= segpackedsamples;
       }
 
-      totalpackedrecords += segpackedrecords;
       totalpackedsamples += segpackedsamples;
 
+      if (segpackedrecords < 0)
+        packerror = 1;
+      else
+        totalpackedrecords += segpackedrecords;
+
       seg = seg->next;
     }
 
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the actual data or extra headers so it should not free them */
   msr->datasamples = NULL;
+  msr->extra = NULL;
   msr3_free (&msr);
 
   if (packedsamples)
     *packedsamples = totalpackedsamples;
 
-  return totalpackedrecords;
+  return (packerror) ? -1 : totalpackedrecords;
 } /* End of mstl3_pack() */
 
 /**********************************************************************/ /**
-- 
2.43.0


From b4b33fbdcd8cd7ae3523c76ebe15ed16e70bd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 37/83] fix: convert samples all or none, rounding negative
 values; keep buffers that cannot be reduced

---
 libmseed/tracelist.c | 49 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 1450283..0965e17 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1427,6 +1427,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   int32_t *idata;
   float *fdata;
   double *ddata;
+  void *newdatasamples = NULL;
   int64_t idx;
 
   if (!seg)
@@ -1454,44 +1455,46 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   {
     if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer before converting any sample */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        if (fabs (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
                   (fdata[idx] - (int32_t)fdata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
       }
+
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (fdata[idx] + ((fdata[idx] < 0) ? -0.5 : 0.5));
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer before converting any sample */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if (fabs (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
                   (ddata[idx] - (int32_t)ddata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
       }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0) ? -0.5 : 0.5));
+
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (int32_t)))))
+        /* Keep the larger buffer if it cannot be reduced */
+        if ((newdatasamples = libmseed_memory.realloc (seg->datasamples,
+                                                       (size_t) (seg->numsamples * sizeof (int32_t)))))
         {
-          ms_log (2, "Cannot re-allocate buffer for sample conversion\n");
-          return -1;
+          seg->datasamples = newdatasamples;
+          seg->datasize = seg->numsamples * sizeof (int32_t);
         }
-        seg->datasize = seg->numsamples * sizeof (int32_t);
       }
     }
 
@@ -1514,13 +1517,13 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (float)))))
+        /* Keep the larger buffer if it cannot be reduced */
+        if ((newdatasamples = libmseed_memory.realloc (seg->datasamples,
+                                                       (size_t) (seg->numsamples * sizeof (float)))))
         {
-          ms_log (2, "Cannot re-allocate buffer after sample conversion\n");
-          return -1;
+          seg->datasamples = newdatasamples;
+          seg->datasize = seg->numsamples * sizeof (float);
         }
-        seg->datasize = seg->numsamples * sizeof (float);
       }
     }
 
@@ -1578,6 +1581,7 @@ mstl3_resize_buffers (MS3TraceList *mstl)
   MS3TraceSeg *seg = NULL;
   uint8_t samplesize = 0;
   size_t datasize;
+  void *newdatasamples = NULL;
 
   if (!mstl)
   {
@@ -1600,14 +1604,15 @@ mstl3_resize_buffers (MS3TraceList *mstl)
 
         if (seg->datasize > datasize)
         {
-          seg->datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
+          newdatasamples = libmseed_memory.realloc (seg->datasamples, datasize);
 
-          if (seg->datasamples == NULL)
+          if (newdatasamples == NULL)
           {
             ms_log (2, "%s: Cannot (re)allocate memory\n", id->sid);
             return MS_GENERROR;
           }
 
+          seg->datasamples = newdatasamples;
           seg->datasize = datasize;
         }
       }
-- 
2.43.0


From 15708af8894436406b7e3692cdefe1ab69ef7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 38/83] fix: keep log messages within their buffer and count
 and free registry entries correctly

---
 libmseed/logging.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..35740ef 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -404,13 +404,16 @@ rlog_int (MSLogParam *logp, const char *function, int level,
     message[MAX_LOG_MSG_LENGTH - 1] = '\0';
   }
 
-  printed += presize;
+  /* Limit to what is in the message buffer if truncated or in error */
+  printed = (printed < 0) ? (int)strlen (message) : printed + presize;
+  if (printed > MAX_LOG_MSG_LENGTH - 1)
+    printed = MAX_LOG_MSG_LENGTH - 1;
 
   /* Add warning/error message to registry if enabled */
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
     /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    if (printed > 0 && message[printed - 1] == '\n')
     {
       message[printed - 1] = '\0';
       printed -= 1;
@@ -492,7 +495,10 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
-        free (logentry);
+      {
+        libmseed_memory.free (logentry);
+        logreg->messagecnt -= 1;
+      }
 
       logentry = lognext;
     }
@@ -586,6 +592,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   while (logentry && emit)
   {
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
 
     logentry->next = logprint;
     logprint = logentry;
@@ -617,7 +624,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     print_message_int (logp, logprint->level, message, "\n");
 
     logentry = logprint->next;
-    free (logprint);
+    libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
@@ -649,7 +656,8 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
-    free (logentry);
+    logp->registry.messagecnt -= 1;
+    libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
 
-- 
2.43.0


From ee01c512807f91a6e25fd0b5920fd72341b2fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 39/83] fix: report output of msi that could not be written

---
 src/msi.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..1bf6517 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -89,6 +89,7 @@ main (int argc, char **argv)
   int64_t totalfiles = 0;
 
   char stime[30];
+  int status = 0;
 
   /* Set default error message prefix */
   ms_loginit (NULL, NULL, NULL, "ERROR: ");
@@ -316,7 +317,12 @@ main (int argc, char **argv)
 
           if (samplesize)
           {
-            fwrite (msr->datasamples, samplesize, msr->numsamples, bfp);
+            if (fwrite (msr->datasamples, samplesize, msr->numsamples, bfp) != (size_t)msr->numsamples)
+            {
+              ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+                      binfile, strerror (errno));
+              return 1;
+            }
           }
           else
           {
@@ -328,7 +334,12 @@ main (int argc, char **argv)
 
       if (outfile)
       {
-        fwrite (msr->record, 1, msr->reclen, ofp);
+        if (fwrite (msr->record, 1, msr->reclen, ofp) != (size_t)msr->reclen)
+        {
+          ms_log (2, "Cannot write to output file: %s (%s)\n",
+                  outfile, strerror (errno));
+          return 1;
+        }
       }
     }
 
@@ -346,11 +357,20 @@ main (int argc, char **argv)
     flp = flp->next;
   } /* End of looping over file list */
 
-  if (binfile)
-    fclose (bfp);
+  /* Close output files, or flush if standard output, and report any failures */
+  if (binfile && ((bfp == stdout) ? fflush (bfp) : fclose (bfp)))
+  {
+    ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+            binfile, strerror (errno));
+    status = 1;
+  }
 
-  if (outfile)
-    fclose (ofp);
+  if (outfile && ((ofp == stdout) ? fflush (ofp) : fclose (ofp)))
+  {
+    ms_log (2, "Cannot write to output file: %s (%s)\n",
+            outfile, strerror (errno));
+    status = 1;
+  }
 
   if (basicsum)
     ms_log (0, "Files: %" PRId64 ", Records: %" PRId64 ", Samples: %" PRId64 "\n",
@@ -375,7 +395,14 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
-  return 0;
+  /* Make sure everything printed was stored */
+  if (fflush (stdout) || ferror (stdout))
+  {
+    ms_log (2, "Cannot write to standard output (%s)\n", strerror (errno));
+    status = 1;
+  }
+
+  return status;
 } /* End of main() */
 
 /***************************************************************************
-- 
2.43.0


From e7732823fa8b5d06453f433053acd741d550bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 40/83] fix: report records msi could not unpack or add to the
 trace list

---
 src/msi.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index 1bf6517..7078b56 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -141,7 +141,10 @@ main (int argc, char **argv)
     flags |= MSF_SKIPNOTDATA;
 
   if (tracegapsum || tracegaponly)
-    mstl = mstl3_init (NULL);
+  {
+    if (!(mstl = mstl3_init (NULL)))
+      return 1;
+  }
 
   flp = filelist;
 
@@ -239,13 +242,23 @@ main (int argc, char **argv)
       }
 
       if (tracegapsum || tracegaponly)
-        mstl3_addmsr (mstl, msr, splitversion, flags, 1, &tolerance);
+      {
+        if (!mstl3_addmsr (mstl, msr, splitversion, flags, 1, &tolerance))
+        {
+          ms_log (2, "%s: Cannot add record to trace list\n", msr->sid);
+          return 1;
+        }
+      }
 
       if (dataflag)
       {
         /* Parse the record (again) and unpack the data */
         int unpacked = msr3_unpack_data (msr, verbose);
 
+        /* Continue but report that data samples are missing from the output */
+        if (unpacked < 0)
+          status = 1;
+
         if (unpacked > 0 && printdata && !tracegaponly)
         {
           int line, col, cnt, samplesize;
@@ -463,11 +476,19 @@ processparam (int argcount, char **argvec)
     }
     else if (strcmp (argvec[optind], "-m") == 0)
     {
-      match_pattern = strdup (getoptval (argcount, argvec, optind++));
+      if ((match_pattern = strdup (getoptval (argcount, argvec, optind++))) == NULL)
+      {
+        ms_log (2, "Error allocating memory\n");
+        exit (1);
+      }
     }
     else if (strcmp (argvec[optind], "-r") == 0)
     {
-      reject_pattern = strdup (getoptval (argcount, argvec, optind++));
+      if ((reject_pattern = strdup (getoptval (argcount, argvec, optind++))) == NULL)
+      {
+        ms_log (2, "Error allocating memory\n");
+        exit (1);
+      }
     }
     else if (strcmp (argvec[optind], "-n") == 0)
     {
-- 
2.43.0


From 174ec11107147388e978ce67f8703338d2aa7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 41/83] fix: refuse list files that cannot be read completely,
 accept CR-LF line endings

---
 src/msi.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/msi.c b/src/msi.c
index 7078b56..67b751d 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -836,8 +836,30 @@ addlistfile (char *filename)
 
     /* End string at first newline character */
     if ((cp = strchr (filelistent, '\n')))
+    {
       *cp = '\0';
 
+      /* Remove carriage return of CR-LF line endings */
+      if (cp > filelistent && *(cp - 1) == '\r')
+        *(cp - 1) = '\0';
+    }
+    /* Otherwise the line is too long unless the last one */
+    else if (strlen (filelistent) == sizeof (filelistent) - 1)
+    {
+      int next = getc (fp);
+
+      if (next != EOF && *filelistent != '#')
+      {
+        ms_log (2, "Entry in list file %s is too long: %s\n", filename, filelistent);
+        fclose (fp);
+        return -1;
+      }
+
+      /* Skip the rest of a comment */
+      while (next != EOF && next != '\n')
+        next = getc (fp);
+    }
+
     /* Skip empty lines */
     if (!strlen (filelistent))
       continue;
@@ -850,11 +872,21 @@ addlistfile (char *filename)
       ms_log (1, "Adding '%s' from list file\n", filelistent);
 
     if (addfile (filelistent))
+    {
+      fclose (fp);
       return -1;
+    }
 
     filecount++;
   }
 
+  if (ferror (fp))
+  {
+    ms_log (2, "Cannot read list file %s: %s\n", filename, strerror (errno));
+    fclose (fp);
+    return -1;
+  }
+
   fclose (fp);
 
   return filecount;
-- 
2.43.0


From 822b0e885ce19db87395f7aca6589bc303bbbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 42/83] fix: refuse selection patterns that do not fit instead
 of truncating them

---
 libmseed/selection.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..d0b53ba 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -191,6 +191,12 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     return -1;
   }
 
+  if (strlen (sidpattern) >= sizeof (newsl->sidpattern))
+  {
+    ms_log (2, "Selection pattern is too long: %s\n", sidpattern);
+    return -1;
+  }
+
   /* Allocate new SelectTime and populate */
   if (!(newst = (MS3SelectTime *)libmseed_memory.malloc (sizeof (MS3SelectTime))))
   {
@@ -209,6 +215,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
     {
       ms_log (2, "Cannot allocate memory\n");
+      libmseed_memory.free (newst);
       return -1;
     }
     memset (newsl, 0, sizeof (MS3Selections));
@@ -250,6 +257,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
       if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
       {
         ms_log (2, "Cannot allocate memory\n");
+        libmseed_memory.free (newst);
         return -1;
       }
       memset (newsl, 0, sizeof (MS3Selections));
@@ -318,6 +326,18 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
     return -1;
   }
 
+  /* The codes must not be altered by truncation */
+  if ((network && strlen (network) >= sizeof (selnet)) ||
+      (station && strlen (station) >= sizeof (selsta)) ||
+      (location && strlen (location) >= sizeof (selloc)) ||
+      (channel && strlen (channel) >= sizeof (selchan)))
+  {
+    ms_log (2, "Selection codes are too long: %s, %s, %s, %s\n",
+            (network) ? network : "", (station) ? station : "",
+            (location) ? location : "", (channel) ? channel : "");
+    return -1;
+  }
+
   if (network)
   {
     strncpy (selnet, network, sizeof (selnet));
-- 
2.43.0


From d987e4c8e5f4c4c7ab6aa183a15d81ff4e4cec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 43/83] fix: keep the leap second table until a new one is read
 completely

---
 libmseed/genutils.c | 60 +++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..dce1c30 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1710,6 +1710,22 @@ ms_readleapseconds (const char *envvarname)
 } /* End of ms_readleapseconds() */
 
 
+/***************************************************************************
+ * free_leapsecondlist:
+ *
+ * Free all entries of a leap second list.
+ ***************************************************************************/
+static void
+free_leapsecondlist (LeapSecond *list)
+{
+  while (list != NULL)
+  {
+    LeapSecond *next = list->next;
+    libmseed_memory.free (list);
+    list = next;
+  }
+}
+
 /**********************************************************************/ /**
  * @brief Read leap second from the specified file
  *
@@ -1732,9 +1748,11 @@ ms_readleapsecondfile (const char *filename)
   FILE *fp           = NULL;
   LeapSecond *ls     = NULL;
   LeapSecond *lastls = NULL;
+  LeapSecond *newlist = NULL;
   int64_t expires;
   char readline[200];
   char *cp;
+  int nextchar;
   int64_t leapsecond;
   int TAIdelta;
   int fields;
@@ -1752,28 +1770,22 @@ ms_readleapsecondfile (const char *filename)
     return -1;
   }
 
-  /* Detatch embedded leap second list */
-  if (leapsecondlist == &embedded_leapsecondlist[0])
-  {
-    leapsecondlist = NULL;
-  }
-
-  /* Free existing leapsecondlist */
-  while (leapsecondlist != NULL)
-  {
-    LeapSecond *next = leapsecondlist->next;
-    libmseed_memory.free (leapsecondlist);
-    leapsecondlist = next;
-  }
-
   while (fgets (readline, sizeof (readline) - 1, fp))
   {
     /* Guarantee termination */
     readline[sizeof (readline) - 1] = '\0';
 
-    /* Terminate string at first newline character if any */
+    /* Terminate string at first newline character if any, otherwise skip
+     * the remainder of lines that are too long, only comments can be. */
     if ((cp = strchr (readline, '\n')))
+    {
       *cp = '\0';
+    }
+    else
+    {
+      while ((nextchar = getc (fp)) != EOF && nextchar != '\n')
+        ;
+    }
 
     /* Skip empty lines */
     if (!strlen (readline))
@@ -1814,6 +1826,8 @@ ms_readleapsecondfile (const char *filename)
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
         ms_log (2, "Cannot allocate LeapSecond entry, out of memory?\n");
+        free_leapsecondlist (newlist);
+        fclose (fp);
         return -1;
       }
 
@@ -1823,11 +1837,11 @@ ms_readleapsecondfile (const char *filename)
       ls->next       = NULL;
       count++;
 
-      /* Add leap second to global list */
-      if (!leapsecondlist)
+      /* Add leap second to new list */
+      if (!newlist)
       {
-        leapsecondlist = ls;
-        lastls         = ls;
+        newlist = ls;
+        lastls  = ls;
       }
       else
       {
@@ -1844,10 +1858,18 @@ ms_readleapsecondfile (const char *filename)
   if (ferror (fp))
   {
     ms_log (2, "Error reading leap second file (%s): %s\n", filename, strerror (errno));
+    free_leapsecondlist (newlist);
+    fclose (fp);
     return -1;
   }
 
   fclose (fp);
 
+  /* Replace the existing list only with a completely read list */
+  if (leapsecondlist != &embedded_leapsecondlist[0])
+    free_leapsecondlist (leapsecondlist);
+
+  leapsecondlist = newlist;
+
   return count;
 } /* End of ms_readleapsecondfile() */
-- 
2.43.0


From 900226d9e3650961d8408b3a1210aa37ab4376a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 44/83] fix: refuse selection files that cannot be read
 completely or hold invalid times

---
 libmseed/selection.c | 49 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index d0b53ba..d6737b1 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -456,6 +456,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   char *fields[MAX_SELECTION_FIELDS];
   char *cp;
   char next;
+  int nextchar;
   int selectcount = 0;
   int linecount = 0;
   int fieldidx;
@@ -496,6 +497,25 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     /* Guarantee termination */
     selectline[sizeof (selectline) - 1] = '\0';
 
+    /* If not the whole line and not the end of file, the line is too long */
+    if (strlen (selectline) == sizeof (selectline) - 2 && selectline[sizeof (selectline) - 3] != '\n' &&
+        (nextchar = getc (fp)) != EOF && nextchar != '\n')
+    {
+      line = selectline;
+      while (isspace ((int)(*line)))
+        line++;
+
+      if (*line != '#')
+      {
+        ms_log (2, "%s: Data selection on line %d is too long\n", filename, linecount);
+        goto failed;
+      }
+
+      /* Skip the rest of a comment */
+      while (nextchar != EOF && nextchar != '\n')
+        nextchar = getc (fp);
+    }
+
     line = selectline;
 
     /* Trim trailing whitespace (including newlines, carriage returns, etc.) if any */
@@ -573,10 +593,10 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
-        return -1;
+        goto failed;
       }
     }
 
@@ -590,10 +610,10 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
-        return -1;
+        goto failed;
       }
     }
 
@@ -614,7 +634,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
-          return -1;
+          goto failed;
         }
         else
         {
@@ -626,7 +646,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (ms3_addselect (ppselections, fields[0], starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        goto failed;
       }
     }
     /* Test for "Network  Station  Location  Channel  [Quality  [Starttime  [Endtime]]]" */
@@ -645,7 +665,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[4]);
-          return -1;
+          goto failed;
         }
         else
         {
@@ -657,21 +677,34 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
                               starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        goto failed;
       }
     }
     else
     {
       ms_log (1, "%s: Skipping unrecognized data selection on line %d\n", filename, linecount);
+      continue;
     }
 
     selectcount++;
   }
 
+  if (ferror (fp))
+  {
+    ms_log (2, "Cannot read file %s: %s\n", filename, strerror (errno));
+    goto failed;
+  }
+
   if (fp != stdin)
     fclose (fp);
 
   return selectcount;
+
+failed:
+  if (fp != stdin)
+    fclose (fp);
+
+  return -1;
 } /* End of ms_readselectionsfile() */
 
 /**********************************************************************/ /**
-- 
2.43.0


From b631403db6b9989d9ac8887f30c94f2217e784e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 45/83] fix: return the number of messages emitted as
 documented

---
 libmseed/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 35740ef..e74558f 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -583,6 +583,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -622,13 +623,14 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     }
 
     print_message_int (logp, logprint->level, message, "\n");
+    emitted++;
 
     logentry = logprint->next;
     libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
-- 
2.43.0


From fdcefc49a6c4861e0f0bbe4b39b5b728dfa300af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 46/83] fix: join records with samples to a segment without
 samples

---
 libmseed/tracelist.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 0965e17..c442433 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1018,7 +1018,8 @@ mstl3_reserve_samples (MS3TraceSeg *seg, int64_t addsamples, char sampletype)
   size_t newdatasize = 0;
   int samplesize = 0;
 
-  if (sampletype != seg->sampletype)
+  /* A segment without samples can hold any type */
+  if (sampletype != seg->sampletype && seg->numsamples > 0)
   {
     ms_log (2, "Sample type (%c) does not match segment sample type (%c)\n",
             sampletype, seg->sampletype);
@@ -1034,7 +1035,10 @@ mstl3_reserve_samples (MS3TraceSeg *seg, int64_t addsamples, char sampletype)
   newdatasize = (size_t) (seg->numsamples + addsamples) * samplesize;
 
   if (seg->datasamples && newdatasize <= seg->datasize)
+  {
+    seg->sampletype = sampletype;
     return 0;
+  }
 
   if (libmseed_prealloc_block_size)
   {
@@ -1057,6 +1061,7 @@ mstl3_reserve_samples (MS3TraceSeg *seg, int64_t addsamples, char sampletype)
   }
 
   seg->datasamples = newdatasamples;
+  seg->sampletype = sampletype;
 
   return 0;
 } /* End of mstl3_reserve_samples() */
-- 
2.43.0


From 3dccd9e424a67bad85c63709bc750ad66a92fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 47/83] fix: leave the trace list unchanged when a record
 cannot join two segments of another sample type

---
 libmseed/tracelist.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index c442433..79881e6 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1113,6 +1113,14 @@ mstl3_extendseg (MS3TraceSeg *seg, MS3TraceSeg *healseg, const MS3Record *msr,
 {
   int64_t msrsamples = (msr->datasamples && msr->numsamples > 0) ? msr->numsamples : 0;
   int64_t healsamples = (healseg && healseg->datasamples && healseg->numsamples > 0) ? healseg->numsamples : 0;
+  char sampletype = seg->sampletype;
+
+  if (msrsamples && healsamples && msr->sampletype != healseg->sampletype)
+  {
+    ms_log (2, "Sample type (%c) does not match segment sample type (%c)\n",
+            msr->sampletype, healseg->sampletype);
+    return NULL;
+  }
 
   if (msrsamples && mstl3_reserve_samples (seg, msrsamples + healsamples, msr->sampletype))
     return NULL;
@@ -1122,7 +1130,10 @@ mstl3_extendseg (MS3TraceSeg *seg, MS3TraceSeg *healseg, const MS3Record *msr,
 
   /* Add MS3RecordPtr if requested */
   if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, whence)))
+  {
+    seg->sampletype = sampletype;
     return NULL;
+  }
 
   if (!mstl3_addmsrtoseg (seg, msr, endtime, whence))
     return NULL;
-- 
2.43.0


From aa7ee929a0c9d05ada978ffba3d1819d7c78b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 48/83] fix: pack only full records of 16-bit integers unless
 flushing

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index dc09692..e4d8dd3 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -276,7 +276,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   }
   else
   {
-    maxsamples = maxdatabytes / samplesize;
+    maxsamples = maxdatabytes / ((encoding == DE_INT16) ? sizeof (int16_t) : (size_t)samplesize);
   }
 
   /* Allocate space for encoded data separately for alignment */
@@ -770,7 +770,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   }
   else
   {
-    maxsamples = maxdatabytes / samplesize;
+    maxsamples = maxdatabytes / ((encoding == DE_INT16) ? sizeof (int16_t) : (size_t)samplesize);
   }
 
   /* Allocate space for encoded data separately for alignment */
-- 
2.43.0


From 6cefc2f0f14b8fce2f2bce8dc7881c7d9e9fe7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 49/83] fix: no data bounds for a miniSEED 2 record without
 data

---
 libmseed/unpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 1e6c959..53d4296 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1075,7 +1075,8 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = (msr->reclen > 0 && *dataoffset < (uint32_t)msr->reclen) ? msr->reclen - *dataoffset : 0;
+    /* There is no data if no offset to it, e.g. a header-only record */
+    *datasize = (*dataoffset > 0 && msr->reclen > 0 && *dataoffset < (uint32_t)msr->reclen) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
-- 
2.43.0


From 32622fb31bbce902b9e13ace9994c9aab2d27e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 50/83] fix: keep wave and MED values of event detections and
 calibration aborts packed as miniSEED 2

---
 libmseed/pack.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index e4d8dd3..5bdb944 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1327,10 +1327,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
       {
         if (strncasecmp (header_string, "DILATATION", 10) == 0)
           *pMS2B200_FLAGS (record + written) |= 0x01;
-      }
-      else if (blockette_type == 200)
-      {
-        *pMS2B200_FLAGS (record + written) |= 0x04;
+
+        /* The wave is only determined with bit 2 set */
+        if (blockette_type == 200)
+          *pMS2B200_FLAGS (record + written) |= 0x04;
       }
 
       if (blockette_type == 200 &&
@@ -1374,10 +1374,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           }
         }
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_LOOPBACK (record + written) = (uint8_t)header_uint;
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_PICKALGORITHM (record + written) = (uint8_t)header_uint;
 
         if (yyjson_ptr_get_str (ehiterval, "/Detector", &header_string))
@@ -1399,7 +1399,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
       if (!yyjson_is_obj (ehiterval))
         continue;
 
-      /* Determine which calibration type: STEP, SINE, PSEUDORANDOM, GENERIC */
+      /* Determine which calibration type: STEP, SINE, PSEUDORANDOM, GENERIC, ABORT */
       blockette_type   = 0;
       blockette_length = 0;
       if (yyjson_ptr_get_str (ehiterval, "/Type", &header_string))
@@ -1424,6 +1424,11 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           blockette_type   = 390;
           blockette_length = 28;
         }
+        else if (strncasecmp (header_string, "ABORT", 5) == 0)
+        {
+          blockette_type   = 395;
+          blockette_length = 16;
+        }
       }
       else if (yyjson_ptr_get (ehiterval, "/EndTime"))
       {
-- 
2.43.0


From 7507a5ef64c8f091df03d22f530ee0a817372340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:27 +0000
Subject: [PATCH 51/83] fix: do not skip records as non-data when memory to
 parse them cannot be allocated

---
 libmseed/fileutils.c |  5 +++--
 libmseed/libmseed.h  |  1 +
 libmseed/lookup.c    |  3 +++
 libmseed/unpack.c    | 36 +++++++++++++++++++++---------------
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index c4831e5..11bc058 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -493,8 +493,9 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       }
       else if (parseval < 0)
       {
-        /* Skip non-data if requested */
-        if (flags & MSF_SKIPNOTDATA)
+        /* Skip non-data if requested, a record that could not be parsed due to
+         * lack of memory is data and cannot be skipped */
+        if ((flags & MSF_SKIPNOTDATA) && parseval != MS_NOMEMORY)
         {
           if (verbose > 1)
           {
diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index abe8f0c..971838f 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -1457,6 +1457,7 @@ extern void *libmseed_memory_prealloc (void *ptr, size_t size, size_t *currentsi
 #define MS_UNKNOWNFORMAT   -5        //!< Unknown data encoding format
 #define MS_STBADCOMPFLAG   -6        //!< Steim, invalid compression flag(s)
 #define MS_INVALIDCRC      -7        //!< Invalid CRC
+#define MS_NOMEMORY        -8        //!< Memory needed to parse a record cannot be allocated
 /** @} */
 
 /** @addtogroup control-flags
diff --git a/libmseed/lookup.c b/libmseed/lookup.c
index 8592703..53b8fe4 100644
--- a/libmseed/lookup.c
+++ b/libmseed/lookup.c
@@ -233,6 +233,9 @@ ms_errorstr (int errorcode)
   case MS_INVALIDCRC:
     return "Invalid CRC detected";
     break;
+  case MS_NOMEMORY:
+    return "Cannot allocate memory";
+    break;
   }
 
   return NULL;
diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 53d4296..21e939f 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -146,7 +146,7 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
 
   /* Initialize the MS3Record */
   if (!(*ppmsr = msr3_init (*ppmsr)))
-    return MS_GENERROR;
+    return MS_NOMEMORY;
 
   /* Shortcut pointer, historical and helps readability */
   msr = *ppmsr;
@@ -188,7 +188,7 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
     {
       ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
       msr->extralength = 0;
-      return MS_GENERROR;
+      return MS_NOMEMORY;
     }
 
     memcpy (msr->extra, record + MS3FSDH_LENGTH + sidlength, msr->extralength);
@@ -314,7 +314,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   /* Initialize the MS3Record */
   if (!(*ppmsr = msr3_init (*ppmsr)))
-    return MS_GENERROR;
+    return MS_NOMEMORY;
 
   /* Shortcut pointer, historical and helps readability */
   msr = *ppmsr;
@@ -491,7 +491,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -524,7 +524,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -547,7 +547,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -602,7 +602,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -659,7 +659,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -710,7 +710,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -759,7 +759,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -807,7 +807,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
-        goto mapping_error;
+        goto invalid_time;
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -930,7 +930,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   }
   else if (mapping_errors)
   {
-    return MS_GENERROR;
+    return MS_NOMEMORY;
   }
 
   /* Check for a Blockette 1000 and log warning if not found */
@@ -1024,9 +1024,15 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   return MS_NOERROR;
 
-mapping_error:
+  /* A time in a blockette cannot be represented */
+invalid_time:
   mseh_free_parsestate (&parsestate);
   return MS_GENERROR;
+
+  /* Mapping to extra headers only fails when memory cannot be allocated */
+mapping_error:
+  mseh_free_parsestate (&parsestate);
+  return MS_NOMEMORY;
 } /* End of msr3_unpack_mseed2() */
 
 /*******************************************************************/ /**
@@ -1238,7 +1244,7 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
     if ((encoded_allocated = (char *) libmseed_memory.malloc (datasize)) == NULL)
     {
       ms_log (2, "Cannot allocate memory for encoded data\n");
-      return MS_GENERROR;
+      return MS_NOMEMORY;
     }
 
     memcpy (encoded_allocated, encoded, datasize);
@@ -1269,7 +1275,7 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
-      return MS_GENERROR;
+      return MS_NOMEMORY;
     }
 
     msr->datasamples = newsamples;
-- 
2.43.0


From b2f67d5f244d596e2ea4d6fa597da2d63659144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:43 +0000
Subject: [PATCH 52/83] fix: deliver log messages that cannot be stored in the
 registry

---
 libmseed/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index e74558f..3b544ce 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -419,7 +419,9 @@ rlog_int (MSLogParam *logp, const char *function, int level,
       printed -= 1;
     }
 
-    add_message_int (&logp->registry, function, level, message);
+    /* Deliver a message that cannot be stored instead of losing it */
+    if (add_message_int (&logp->registry, function, level, message))
+      print_message_int (logp, level, message, "\n");
   }
   else
   {
-- 
2.43.0


From 5079499fbe26b6ebc342aa372d8a919cdeaf1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:43 +0000
Subject: [PATCH 53/83] fix: serializing extra headers where no value was set
 is not a failure

---
 libmseed/extraheaders.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 8491c26..a52697c 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1021,6 +1021,10 @@ mseh_serialize (MS3Record *msr, LM_PARSED_JSON **parsestate)
   if (!parsed || !parsed->mut_doc)
     return 0;
 
+  /* Nothing to serialize if no value was ever set in an empty document */
+  if (yyjson_mut_doc_get_root (parsed->mut_doc) == NULL)
+    return 0;
+
   /* Serialize new JSON string */
   serialized = yyjson_mut_write_opts (parsed->mut_doc, flg, &alc, &serialsize, &err);
 
-- 
2.43.0


From 3b00bd0337eacb1949a4388faec17f16e05bd812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 54/83] fix: locate the data payload from the raw record when
 parsed headers were modified

---
 libmseed/unpack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 21e939f..979475a 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1075,7 +1075,9 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) + msr->extralength;
+    /* Use lengths in the raw record, the parsed header values may have been modified */
+    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) +
+                  HO2u (*pMS3FSDH_EXTRALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
     *datasize = msr->datalength;
   }
   else if (msr->formatversion == 2)
-- 
2.43.0


From 8c5c5165c159cdd581daba356bbc8ca8ba8e695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:19 +0000
Subject: [PATCH 55/83] fix: release the buffer of a segment without samples
 when converting it

---
 libmseed/tracelist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 79881e6..55f448c 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1559,17 +1559,17 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     {
       for (idx = 0; idx < seg->numsamples; idx++)
         ddata[idx] = (double)idata[idx];
-
-      libmseed_memory.free (idata);
     }
     else if (seg->sampletype == 'f') /* Convert floats to doubles */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
         ddata[idx] = (double)fdata[idx];
-
-      libmseed_memory.free (fdata);
     }
 
+    /* Replace sample buffer, which may also exist without samples of any type */
+    if (seg->datasamples)
+      libmseed_memory.free (seg->datasamples);
+
     seg->datasamples = ddata;
     seg->datasize = seg->numsamples * sizeof (double);
     seg->sampletype = 'd';
-- 
2.43.0


From e613849d49c571a7bb34ac96e9ceb52c2e70a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 56/83] fix: do not resize the buffer of a segment without
 samples when converting it

---
 libmseed/tracelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 55f448c..a8cb88b 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1502,7 +1502,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
         idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0) ? -0.5 : 0.5));
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
+      if (libmseed_prealloc_block_size == 0 && seg->numsamples > 0)
       {
         /* Keep the larger buffer if it cannot be reduced */
         if ((newdatasamples = libmseed_memory.realloc (seg->datasamples,
@@ -1531,7 +1531,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
         fdata[idx] = (float)ddata[idx];
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
+      if (libmseed_prealloc_block_size == 0 && seg->numsamples > 0)
       {
         /* Keep the larger buffer if it cannot be reduced */
         if ((newdatasamples = libmseed_memory.realloc (seg->datasamples,
-- 
2.43.0


From 9b2122bab696c53b23d840323b208674d0cc3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 57/83] fix: do not list SYNC lines without codes when memory
 is not available

---
 libmseed/genutils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index dce1c30..4441e6f 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -184,7 +184,8 @@ ms_sid2nslc (const char *sid, char *net, char *sta, char *loc, char *chan)
 {
   size_t idlen;
   const char *cid;
-  char *id;
+  char idbuffer[LM_SIDLEN];
+  char *id = idbuffer;
   char *ptr, *top, *next;
   int sepcnt = 0;
 
@@ -213,8 +214,9 @@ ms_sid2nslc (const char *sid, char *net, char *sta, char *loc, char *chan)
       return -1;
     }
 
+    /* Allocate memory only for an identifier longer than used in records */
     idlen = strlen (sid) + 1;
-    if (!(id = libmseed_memory.malloc (idlen)))
+    if (idlen > sizeof (idbuffer) && !(id = libmseed_memory.malloc (idlen)))
     {
       ms_log (2, "Error duplicating identifier\n");
       return -1;
@@ -266,7 +268,7 @@ ms_sid2nslc (const char *sid, char *net, char *sta, char *loc, char *chan)
     }
 
     /* Free duplicated ID */
-    if (id)
+    if (id != idbuffer)
       libmseed_memory.free (id);
   }
   else
-- 
2.43.0


From 58b61118b077eb9bc83e0423b136429ac00dc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:49 +0000
Subject: [PATCH 58/83] fix: match the character escaped in a globbing pattern

---
 libmseed/selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index d6737b1..9c728b2 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -969,7 +969,7 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
-      break;
+      /* Fall through to match the escaped character */
 
     default:
       if (c != *string)
-- 
2.43.0


From 1aebe80b38721bce77fc81004f0efed9222577bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 59/83] fix: end of file is reached when selections reject
 every record

---
 libmseed/fileutils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 11bc058..0016099 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -274,7 +274,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   int parseval  = 0;
   int readsize  = 0;
   int readcount = 0;
-  int truncated = 0;
+  int detected = 0;
   int retcode   = MS_NOERROR;
 
   if (!ppmsr || !ppmsfp)
@@ -461,6 +461,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
           }
 
           /* Skip record length bytes, update reading offset and file position */
+          detected = 1;
           msfp->readoffset += (*ppmsr)->reclen;
           msfp->streampos += (*ppmsr)->reclen;
         }
@@ -560,7 +561,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
           /* Skip SKIPLEN bytes, a damaged record length may cover following records */
           if (flags & MSF_SKIPNOTDATA)
           {
-            truncated = 1;
+            detected = 1;
             msfp->readoffset += SKIPLEN;
             msfp->streampos += SKIPLEN;
           }
@@ -576,7 +577,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     /* Finished when at end-of-stream and buffer contains less than MINRECLEN */
     if (MSFPATEND (msfp) && MSFPBUFLEN (msfp) < MINRECLEN)
     {
-      if (msfp->recordcount == 0 && !truncated)
+      if (msfp->recordcount == 0 && !detected)
       {
         ms_log (2, "%s: No data records read, not SEED?\n", msfp->path);
         retcode = MS_NOTSEED;
-- 
2.43.0


From 881cf01ddfedf8e9c70458ea5cb472ba3be94967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 60/83] fix: room for the time strings of skipped records

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 67b751d..6c875c7 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -88,7 +88,7 @@ main (int argc, char **argv)
   int64_t totalsamps = 0;
   int64_t totalfiles = 0;
 
-  char stime[30];
+  char stime[40];
   int status = 0;
 
   /* Set default error message prefix */
-- 
2.43.0


From 67b7d2ca66af3ed0e01e21d47cc91d1427c89b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 61/83] fix: end the line of text data that fills log messages

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 6c875c7..16cdfb9 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -278,7 +278,7 @@ main (int argc, char **argv)
             ms_log (0, "Text Data:\n");
 
             /* Print maximum log message segments */
-            while (length > (MAX_LOG_MSG_LENGTH - 1))
+            while (length >= (MAX_LOG_MSG_LENGTH - 1))
             {
               ms_log (0, "%.*s", (MAX_LOG_MSG_LENGTH - 1), textdata);
               textdata += MAX_LOG_MSG_LENGTH - 1;
-- 
2.43.0


From 2f7ab7a143f3d24262593b02994321b8993fc21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 62/83] fix: end the blockette chain at a blockette of unknown
 length linked to itself

---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index fb52f84..6b11a51 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1313,7 +1313,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       }
 
       /* Sanity check the next blockette offset */
-      if (next_blkt && next_blkt <= endofblockettes)
+      if (next_blkt && (next_blkt <= blkt_offset || next_blkt <= endofblockettes))
       {
         ms_log (2, "%s: Next blockette offset (%d) is within current blockette ending at byte %d\n",
                 sid, next_blkt, endofblockettes);
-- 
2.43.0


From 73ab6c46c6515d7f6eba03c2f1ac7d0ab4fad26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 63/83] fix: find header values set in a parse state of a
 record without extra headers

---
 libmseed/extraheaders.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index a52697c..222aca3 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -171,13 +171,13 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     return MS_GENERROR;
   }
 
-  /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  /* Nothing can be found in no headers, unless values were set in the state */
+  if (!msr->extralength && !parsed)
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (!msr->extra && !parsed)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
@@ -209,7 +209,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Create immutable document from mutable if needed */
-  if (parsed->mut_doc != NULL && parsed->doc == NULL)
+  if (yyjson_mut_doc_get_root (parsed->mut_doc) != NULL && parsed->doc == NULL)
   {
     if ((parsed->doc = yyjson_mut_doc_imut_copy (parsed->mut_doc, &alc)) == NULL)
     {
-- 
2.43.0


From f09a67bb6075bf1cff5dee3d32e4b7e5ceee0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:40 +0000
Subject: [PATCH 64/83] fix: refuse path names that are too long to be stored

---
 libmseed/fileutils.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 0016099..0b6b797 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -270,6 +270,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   MS3FileParam *msfp;
   uint32_t pflags = flags;
   char *pathname_range = NULL;
+  size_t pathlength;
 
   int parseval  = 0;
   int readsize  = 0;
@@ -347,19 +348,21 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       pathname_range = parse_pathname_range (mspath, &msfp->startoffset, &msfp->endoffset);
     }
 
-    /* Store the path */
-    strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
+    /* Length of path without byte range suffix if present */
+    pathlength = (pathname_range) ? (size_t)(pathname_range - mspath) : strlen (mspath);
 
-    /* Truncate to remove byte range suffix if present or maximum range */
-    if (pathname_range)
-    {
-      msfp->path[pathname_range - mspath] = '\0';
-    }
-    else
+    if (pathlength >= sizeof (msfp->path))
     {
-      msfp->path[sizeof (msfp->path) - 1] = '\0';
+      ms_log (2, "Path name is too long (%" PRIu64 " characters, maximum %d): %s\n",
+              (uint64_t)pathlength, (int)sizeof (msfp->path) - 1, mspath);
+      msr3_free (ppmsr);
+      return MS_GENERROR;
     }
 
+    /* Store the path */
+    memcpy (msfp->path, mspath, pathlength);
+    msfp->path[pathlength] = '\0';
+
     if (strcmp (mspath, "-") == 0)
     {
       msfp->input.type = LMIO_FD;
-- 
2.43.0


From 67de594415caf5a72f34e8ebcaa63cb78f8d83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 65/83] fix: latency of records whose rate is given as a period

---
 libmseed/msrutils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 6239483..d668ad5 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -402,14 +402,17 @@ msr3_host_latency (const MS3Record *msr)
   double span = 0.0; /* Time covered by the samples */
   double epoch;      /* Current epoch time */
   double latency = 0.0;
+  double samprate; /* Sample rate in samples per second */
   time_t tv;
 
   if (msr == NULL)
     return 0.0;
 
   /* Calculate the time covered by the samples */
-  if (msr->samprate > 0.0 && msr->samplecnt > 0)
-    span = (1.0 / msr->samprate) * (msr->samplecnt - 1);
+  samprate = msr3_sampratehz (msr);
+
+  if (samprate > 0.0 && msr->samplecnt > 0)
+    span = (1.0 / samprate) * (msr->samplecnt - 1);
 
   /* Grab UTC time according to the system clock */
   epoch = (double)time (&tv);
-- 
2.43.0


From 477d06becbbce72dbcd43c8a82cfbf607e67b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 66/83] fix: decode little-endian GEOSCOPE 24-bit samples

---
 libmseed/unpackdata.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..5d9f7a2 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -628,11 +628,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   uint64_t exp2val;
   int16_t sint;
   double dsample = 0.0;
-
-  union {
-    uint8_t b[4];
-    uint32_t i;
-  } sample32;
+  int bigendianhost = ms_bigendianhost ();
 
   if (samplecount == 0)
     return 0;
@@ -655,15 +651,11 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     switch (encoding)
     {
     case DE_GEOSCOPE24:
-      sample32.i = 0;
-      if (swapflag)
-        for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
-      else
-        for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
-
-      mantissa = sample32.i;
+      /* Assemble value independent of host byte order, values are in
+       * big-endian order if swapping is needed on a little-endian host */
+      mantissa = 0;
+      for (k = 0; k < 3; k++)
+        mantissa |= (int32_t)(uint8_t)input[k] << 8 * (((swapflag != 0) != bigendianhost) ? 2 - k : k);
 
       /* Take 2's complement for mantissa for overflow */
       if ((unsigned long)mantissa > MAX24)
-- 
2.43.0


From fa3f3272a437def278dade0cd4974579862d3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 67/83] fix: leave the time of a timing exception unset when
 its year is zero

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 979475a..87f4fd6 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -809,8 +809,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (exception.time == NSTERROR)
         goto invalid_time;
 
-      /* Apply microsecond precision if non-zero */
-      if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
+      /* Apply microsecond precision if non-zero and a time is set */
+      if (exception.time != NSTUNSET && *pMS2B500_MICROSECOND (record + blkt_offset) != 0)
       {
         exception.time += (nstime_t)*pMS2B500_MICROSECOND (record + blkt_offset) * (NSTMODULUS / 1000000);
       }
-- 
2.43.0


From 0fdee9802be021ec81150f3468ba8c304d9c533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 68/83] fix: repack gain-ranged and 24-bit samples in the byte
 order of miniSEED 3

---
 libmseed/pack.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 5bdb944..51d06d2 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -406,6 +406,7 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t crc;
   uint32_t reclen;
   int8_t swapflag;
+  char swapbyte;
 
   if (!msr || !msr->record || ! record)
   {
@@ -458,7 +459,29 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
 
   /* Swap the payload if not in the byte order of miniSEED 3: big endian for
    * Steim encodings, little endian for others. */
-  swapsize = (msr->encoding == DE_INT16) ? 2 : (msr->encoding == DE_FLOAT64) ? 8 : 4;
+  switch (msr->encoding)
+  {
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    swapsize = 2;
+    break;
+  case DE_GEOSCOPE24:
+    swapsize = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    swapsize = 4;
+    break;
+  case DE_FLOAT64:
+    swapsize = 8;
+    break;
+  default:
+    swapsize = 0;
+  }
   swapflag = (msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0;
 
   if (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2)
@@ -469,14 +492,18 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
       return -1;
     }
   }
-  else if (swapflag != (ms_bigendianhost () ? 1 : 0) &&
-           (msr->encoding == DE_INT16 || msr->encoding == DE_INT32 ||
-            msr->encoding == DE_FLOAT32 || msr->encoding == DE_FLOAT64))
+  else if (swapflag != (ms_bigendianhost () ? 1 : 0) && swapsize > 0)
   {
     for (idx = 0; idx + swapsize <= origdatasize; idx += swapsize)
     {
       if (swapsize == 2)
         ms_gswap2 (record + dataoffset + idx);
+      else if (swapsize == 3)
+      {
+        swapbyte                     = record[dataoffset + idx];
+        record[dataoffset + idx]     = record[dataoffset + idx + 2];
+        record[dataoffset + idx + 2] = swapbyte;
+      }
       else if (swapsize == 4)
         ms_gswap4 (record + dataoffset + idx);
       else
-- 
2.43.0


From ae94f91607bdd2d30e78ab339ab7dcf2f77d5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:03 +0000
Subject: [PATCH 69/83] fix: keep calibration aborts without a time when
 packing as miniSEED 2

---
 libmseed/pack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 51d06d2..0fdb54e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1635,8 +1635,9 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         written += blockette_length;
       }
 
-      /* Add Blockette 395 if EndTime is included */
-      if (yyjson_ptr_get_str (ehiterval, "/EndTime", &header_string))
+      /* Add Blockette 395 if EndTime is included or this is an abort with no time */
+      header_string = NULL;
+      if (yyjson_ptr_get_str (ehiterval, "/EndTime", &header_string) || blockette_type == 395)
       {
         blockette_type  = 395;
         blockette_length = 16;
@@ -1656,7 +1657,8 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         *pMS2B395_TYPE (record + written) = HO2u (blockette_type, swapflag);
         *pMS2B395_NEXT (record + written) = 0;
 
-        if (ms_timestr2btime (header_string, (uint8_t *)pMS2B395_YEAR (record + written),
+        if (header_string &&
+            ms_timestr2btime (header_string, (uint8_t *)pMS2B395_YEAR (record + written),
                               msr->sid, swapflag) == -1)
         {
           ms_log (2, "%s: Cannot convert B%u time: %s\n", msr->sid, blockette_type, header_string);
-- 
2.43.0


From 9c31d86ad3e06c19d63daf3f73dd56a301cec843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:35 +0000
Subject: [PATCH 70/83] fix: print extra header strings with escaped quotes
 unaltered

---
 libmseed/extraheaders.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 222aca3..72e21c2 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1192,6 +1192,14 @@ mseh_print (const MS3Record *msr, int indent)
   ms_log (0, "%*s", indent, "");
   for (idx = 1; idx < (msr->extralength - 1); idx++)
   {
+    /* Print escaped characters in strings as they are */
+    if (instring && extra[idx] == '\\' && idx < (msr->extralength - 2))
+    {
+      ms_log (0, "%c%c", extra[idx], extra[idx + 1]);
+      idx++;
+      continue;
+    }
+
     /* Toggle "in string" flag for double quotes */
     if (extra[idx] == '"')
       instring = (instring) ? 0 : 1;
-- 
2.43.0


From a21753391173c57e4d84fd2de1a47a543871ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:35 +0000
Subject: [PATCH 71/83] fix: limit offsets in byte ranges to values that can be
 calculated with

---
 libmseed/fileutils.c |  4 ++--
 libmseed/msio.c      | 21 +++++++++++++++++++--
 libmseed/msio.h      |  5 +++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 0b6b797..7b5fb31 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -1130,10 +1130,10 @@ parse_pathname_range (const char *string, int64_t *start, int64_t *end)
 
     /* Convert start and end values to numbers if non-zero length */
     if (start && startdigits)
-      *start = (int64_t) strtoull (startstr, NULL, 10);
+      *start = msio_parse_offset (startstr);
 
     if (end && enddigits)
-      *end = (int64_t) strtoull (endstr, NULL, 10);
+      *end = msio_parse_offset (endstr);
   }
 
   return at;
diff --git a/libmseed/msio.c b/libmseed/msio.c
index 08476ca..1aa8b10 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -148,10 +148,10 @@ header_callback (char *buffer, size_t size, size_t num, void *userdata)
 
     /* Convert start and end values to numbers if non-zero length */
     if (hcp->startoffset && startdigits)
-      *hcp->startoffset = (int64_t) strtoull (startstr, NULL, 10);
+      *hcp->startoffset = msio_parse_offset (startstr);
 
     if (hcp->endoffset && enddigits)
-      *hcp->endoffset = (int64_t) strtoull (endstr, NULL, 10);
+      *hcp->endoffset = msio_parse_offset (endstr);
   }
 
   return size;
@@ -160,6 +160,23 @@ header_callback (char *buffer, size_t size, size_t num, void *userdata)
 #endif /* defined(LIBMSEED_URL) */
 
 
+/***************************************************************************
+ * msio_parse_offset:
+ *
+ * Convert a string of digits to a byte offset.  Values larger than
+ * LMIO_MAXOFFSET, which cannot be offsets of any data, are reduced to it.
+ *
+ * Returns offset.
+ ***************************************************************************/
+int64_t
+msio_parse_offset (const char *digits)
+{
+  unsigned long long value = strtoull (digits, NULL, 10);
+
+  return (value > LMIO_MAXOFFSET) ? LMIO_MAXOFFSET : (int64_t)value;
+} /* End of msio_parse_offset() */
+
+
 /***************************************************************************
  * msio_fopen:
  *
diff --git a/libmseed/msio.h b/libmseed/msio.h
index 606866e..083104b 100644
--- a/libmseed/msio.h
+++ b/libmseed/msio.h
@@ -27,6 +27,11 @@ extern "C" {
 
 #include "libmseed.h"
 
+/* Largest byte offset, well within the range of int64_t so that stream
+ * positions can be calculated from offsets without overflow */
+#define LMIO_MAXOFFSET (INT64_MAX / 2)
+
+extern int64_t msio_parse_offset (const char *digits);
 extern int msio_fopen (LMIO *io, const char *path, const char *mode,
                        int64_t *startoffset, int64_t *endoffset);
 extern int msio_fclose (LMIO *io);
-- 
2.43.0


From bc5079529af33d0d8910515a91a7362307cfcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 72/83] fix: return integer extra headers beyond 32 bits
 unaltered

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 72e21c2..c6db6d9 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -239,7 +239,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   else if (type == 'i' && yyjson_is_int (extravalue))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From 67f7597c28e51295e9412e7afe13ef3c24d8c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 73/83] fix: keep an extra header value when memory for its
 replacement is not available

---
 libmseed/extraheaders.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index c6db6d9..db669c9 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -270,6 +270,18 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   return retval;
 } /* End of mseh_get_ptr_r() */
 
+/***************************************************************************
+ * Internal routine to set the value at a JSON Pointer.
+ *
+ * A NULL value, from a failed allocation, is refused as it would otherwise
+ * remove the existing value.
+ ***************************************************************************/
+static bool
+set_ptr_value (yyjson_mut_doc *mut_doc, const char *ptr, yyjson_mut_val *value)
+{
+  return (value) ? yyjson_mut_doc_ptr_set (mut_doc, ptr, value) : false;
+}
+
 /**********************************************************************/ /**
  * @brief Set the value of extra header values
  *
@@ -395,20 +407,20 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   switch (type)
   {
   case 'n':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_real (parsed->mut_doc, *((double *)value)));
+    rv = set_ptr_value (parsed->mut_doc, ptr,
+                        yyjson_mut_real (parsed->mut_doc, *((double *)value)));
     break;
   case 'i':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
+    rv = set_ptr_value (parsed->mut_doc, ptr,
+                        yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
     break;
   case 's':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
+    rv = set_ptr_value (parsed->mut_doc, ptr,
+                        yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
     break;
   case 'b':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
+    rv = set_ptr_value (parsed->mut_doc, ptr,
+                        yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
     break;
   case 'M':
     /* Parse supplied patch */
@@ -440,8 +452,8 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
 
     break;
   case 'V':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    rv = set_ptr_value (parsed->mut_doc, ptr,
+                        yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
     break;
   case 'A':
     /* Search for existing array, create if necessary */
-- 
2.43.0


From 202a28fd124b172c2e85eb06d251613a005a361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:11 +0000
Subject: [PATCH 74/83] fix: leave no empty list behind when an extra header
 entry cannot be added

---
 libmseed/extraheaders.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index db669c9..934bd5d 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -338,6 +338,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   yyjson_mut_val *merged_val = NULL;
   yyjson_mut_val *target_val = NULL;
   yyjson_mut_val *array_val = NULL;
+  bool new_array = false;
   bool rv = false;
 
   if (!msr || !ptr || !value)
@@ -459,18 +460,19 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
     /* Search for existing array, create if necessary */
     if ((array_val = yyjson_mut_doc_ptr_get (parsed->mut_doc, ptr)) == NULL)
     {
-      if ((array_val = yyjson_mut_arr (parsed->mut_doc)))
-      {
-        if (yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, array_val) == false)
-        {
-          array_val = NULL;
-        }
-      }
+      array_val = yyjson_mut_arr (parsed->mut_doc);
+      new_array = true;
     }
 
     /* Append supplied value, will return false if array_val == NULL */
     rv = yyjson_mut_arr_append (array_val,
                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+
+    /* Add a new array to the document only when it contains the value */
+    if (rv == true && new_array)
+    {
+      rv = set_ptr_value (parsed->mut_doc, ptr, array_val);
+    }
     break;
   default:
     ms_log (2, "%s() Unrecognized value type '%d'\n", __func__, type);
-- 
2.43.0


From 6f30ba1f5f037af5f6b4a7c1bb260fd73ca90ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:49 +0000
Subject: [PATCH 75/83] fix: take the sample type of a record list from its
 first record with samples

A segment that begins with a record without samples, usually declared as
text, could not be unpacked: the samples of its other records were refused
as mixed types, while unpacking them when read gives them.
---
 libmseed/tracelist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a8cb88b..99a97c0 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1726,7 +1726,10 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     return -1;
   }
 
+  /* The first record with samples determines the sample type, others have none */
   recordptr = seg->recordlist->first;
+  while (recordptr->next && recordptr->msr->samplecnt == 0)
+    recordptr = recordptr->next;
 
   /* Fallback encoding for when encoding is unknown, as msr3_unpack_data() */
   encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
-- 
2.43.0


From 211b42ba6b780f38105e42f3df61591296096f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 76/83] fix: do not join records without samples to trace
 segments

A record without samples that follows or precedes a segment by a sample
period was joined to it and took the place of a sample in its time span, so
the samples joined after it were listed and packed one period early.
---
 libmseed/tracelist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 99a97c0..94ca60f 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -44,6 +44,10 @@ static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
 #define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
+/* Test if a record can be joined to a segment: without samples they cover no time that another could follow.
+ * A segment emptied by packing, which starts after its end, does and is continued by the following record. */
+#define SEG_JOINABLE(SEG, MSR) ((MSR)->samplecnt > 0 && ((SEG)->samplecnt > 0 || (SEG)->endtime < (SEG)->starttime))
+
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
  *
@@ -484,6 +488,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
     /* Record coverage fits at end of last segment */
     if (lastgap <= nstimetol && lastgap >= nnstimetol &&
+        SEG_JOINABLE (id->last, msr) &&
         IS_SAMPRATE_SIMILAR (sampratehz, id->last->samprate, sampratetol))
     {
       if (!(seg = mstl3_extendseg (id->last, NULL, msr, endtime, pprecptr, 1)))
@@ -524,6 +529,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     }
     /* Record coverage fits at beginning of first segment */
     else if (firstgap <= nstimetol && firstgap >= nnstimetol &&
+             SEG_JOINABLE (id->first, msr) &&
              IS_SAMPRATE_SIMILAR (sampratehz, id->first->samprate, sampratetol))
     {
       if (!(seg = mstl3_extendseg (id->first, NULL, msr, endtime, pprecptr, 2)))
@@ -547,7 +553,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
          * Rationale: autohealing would have combined this segment
          * with another if that were possible, so this record will
          * also not fit with any other segment. */
-        if (autoheal &&
+        if (autoheal && SEG_JOINABLE (searchseg, msr) &&
             msr->starttime == searchseg->starttime &&
             endtime == searchseg->endtime)
         {
@@ -563,6 +569,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
           postgap = msr->starttime - searchseg->endtime - nsperiod;
 
           if (postgap <= nstimetol && postgap >= nnstimetol &&
+              SEG_JOINABLE (searchseg, msr) &&
               IS_SAMPRATE_SIMILAR (sampratehz, searchseg->samprate, sampratetol))
             segbefore = searchseg;
         }
@@ -572,6 +579,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
           pregap = searchseg->starttime - endtime - nsperiod;
 
           if (pregap <= nstimetol && pregap >= nnstimetol &&
+              SEG_JOINABLE (searchseg, msr) &&
               IS_SAMPRATE_SIMILAR (sampratehz, searchseg->samprate, sampratetol))
             segafter = searchseg;
         }
-- 
2.43.0


From c03daf27b32ce9517dc7921b8e869b4b262aff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:34 +0000
Subject: [PATCH 77/83] fix: emit no records for trace segments without samples
 when packing

A segment of a rolling buffer that was packed completely gave a record
without samples, past its end, at every following call of mstl3_pack().
---
 libmseed/tracelist.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 94ca60f..3844a71 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2108,6 +2108,13 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     seg = id->first;
     while (seg)
     {
+      /* Nothing to pack for segments without samples, e.g. emptied by previous packing */
+      if (seg->numsamples <= 0)
+      {
+        seg = seg->next;
+        continue;
+      }
+
       msr->starttime = seg->starttime;
       msr->samprate = seg->samprate;
       msr->samplecnt = seg->samplecnt;
-- 
2.43.0


From bc2b9b02bf9cb8f6c482bb03d6b0c83698549247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 78/83] fix: count only input files that were read in the msi
 summary

Files after the one in which the limit of the -n option was reached were
never opened but counted.
---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 16cdfb9..66fa690 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -148,7 +148,7 @@ main (int argc, char **argv)
 
   flp = filelist;
 
-  while (flp != 0)
+  while (flp != 0 && reccntdown != 0)
   {
     if (verbose >= 2)
       ms_log (1, "Processing: %s\n", flp->filename);
-- 
2.43.0


From aede4421ba0843ae9bf51635545cdbacd0bb9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:11 +0000
Subject: [PATCH 79/83] fix: keep the sign of epoch times less than a second
 before 1970

---
 libmseed/genutils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 4441e6f..ac51aa7 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -938,6 +938,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   int submicro;
   int printed  = 0;
   int expected = 0;
+  const char *sign = "";
 
   if (!timestr)
   {
@@ -955,6 +956,10 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
     isec -= 1;
     nanosec = NSTMODULUS - (-nanosec);
     rawnanosec *= -1;
+
+    /* A zero for the integer seconds cannot carry the sign */
+    if (rawisec == 0)
+      sign = "-";
   }
 
   /* Determine microsecond and sub-microsecond values */
@@ -1054,7 +1059,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d", sign, rawisec, rawnanosec / 1000);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1098,7 +1103,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d", sign, rawisec, rawnanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1367,7 +1372,7 @@ ms_timestr2nstime (const char *timestr)
 
     if (fsec != 0.0)
     {
-      if (nstime >= 0)
+      if (nstime >= 0 && timestr[0] != '-')
         nstime += (int)(fsec * 1000000000.0 + 0.5);
       else
         nstime -= (int)(fsec * 1000000000.0 + 0.5);
-- 
2.43.0


From fed92e5790a11d66a57d754f3ecc3a5a7ad8f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:41 +0000
Subject: [PATCH 80/83] fix: refuse to pack miniSEED 2 with years that readers
 do not recognize

---
 libmseed/pack.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 0fdb54e..893c8c9 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -876,7 +876,8 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     /* Update record start time for next record */
     nextstarttime = ms_sampletime (msr->starttime, totalpackedsamples, msr->samprate);
 
-    if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
+    if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec) ||
+        !MS_ISVALIDYEARDAY (year, day))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n",
               msr->sid, nextstarttime);
@@ -1030,6 +1031,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     return -1;
   }
 
+  /* The byte order of miniSEED 2 is detected by the year, others cannot be read reliably */
+  if (!MS_ISVALIDYEARDAY (year, day))
+  {
+    ms_log (2, "%s: Year %u cannot be represented in miniSEED 2\n", msr->sid, year);
+    return -1;
+  }
+
   /* Calculate time at fractional 100usec resolution and microsecond offset */
   fsec = nsec / 100000;
   msec_offset = ((nsec / 1000) - (fsec * 100));
-- 
2.43.0


From 445c352798e3d8f0fb840455698fe9fecd4e4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:03 +0000
Subject: [PATCH 81/83] fix: keep the fractional seconds of times separated
 with commas

---
 libmseed/genutils.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index ac51aa7..ee3019e 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1529,8 +1529,8 @@ ms_mdtimestr2nstime (const char *timestr)
  * The time format expected is "YYYY[,DDD,HH,MM,SS.FFFFFFFFF]", the
  * delimiter can be a dash [-], comma [,], colon [:] or period [.].
  * Additionally a [T] or space may be used to seprate the day and hour
- * fields.  The fractional seconds ("FFFFFFFFF") must begin with a
- * period [.] if present.
+ * fields.  The fractional seconds ("FFFFFFFFF") begin with a
+ * period [.], comma [,] or colon [:] if present.
  *
  * The time string can be "short" in which case the omitted values are
  * assumed to be zero (with the exception of DDD which is assumed to
@@ -1554,6 +1554,8 @@ ms_seedtimestr2nstime (const char *seedtimestr)
   int sec       = 0;
   double fsec   = 0.0;
   uint32_t nsec = 0;
+  int fracidx   = 0;
+  char fraction[32];
 
   if (!seedtimestr)
   {
@@ -1561,8 +1563,16 @@ ms_seedtimestr2nstime (const char *seedtimestr)
     return NSTERROR;
   }
 
-  fields = sscanf (seedtimestr, "%d%*[-,:.]%d%*[-,:.Tt ]%d%*[-,:.]%d%*[-,:.]%d%lf",
-                   &year, &yday, &hour, &min, &sec, &fsec);
+  fields = sscanf (seedtimestr, "%d%*[-,:.]%d%*[-,:.Tt ]%d%*[-,:.]%d%*[-,:.]%d%n%lf",
+                   &year, &yday, &hour, &min, &sec, &fracidx, &fsec);
+
+  /* Fractional seconds separated with a comma or colon instead of a period */
+  if (fields == 5 && (seedtimestr[fracidx] == ',' || seedtimestr[fracidx] == ':'))
+  {
+    snprintf (fraction, sizeof (fraction), "0.%.*s",
+              (int)strspn (seedtimestr + fracidx + 1, "0123456789"), seedtimestr + fracidx + 1);
+    sscanf (fraction, "%lf", &fsec);
+  }
 
   /* Convert fractional seconds to nanoseconds */
   if (fsec != 0.0)
-- 
2.43.0


From ce13dc7476f0ced56ce57d6bbaa22792ee59241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:38 +0000
Subject: [PATCH 82/83] fix: honor the requested byte order in ms_parse_raw2()

---
 libmseed/parseutils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 6b11a51..ccf5bf1 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -564,10 +564,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)) ? 0 : 1;
 
   if (details > 1)
   {
-- 
2.43.0


From 6df110f803bb855a314d1f5cb2db619f257655a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:38 +0000
Subject: [PATCH 83/83] fix: no false offset errors for miniSEED 2 without
 blockette 1000 in ms_parse_raw2()

---
 libmseed/parseutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index ccf5bf1..78723c0 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1334,13 +1334,13 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     }
 
     /* Check that the data and blockette offsets are within the record */
-    if (b1000reclen && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Data offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag), b1000reclen);
       retval++;
     }
-    if (b1000reclen && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Blockette offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag), b1000reclen);
-- 
2.43.0

