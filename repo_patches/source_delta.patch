From 6cd49e400bcfe9a248dfca9ccd900348b2192e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 01/54] fix: re-enable signals when the frame buffer cannot be
 allocated

---
 src/page.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..dff6ce0 100644
--- a/src/page.c
+++ b/src/page.c
@@ -802,15 +802,24 @@ init_frame_buffer (ed_frame_buffer_t *fb, ed_buffer_t *ed)
             free (fb->row[n]->text);
             init_frame_node (fb->row[n]);
           }
-      REALLOC_THROW (fp, fp_size,
-                     (ed->display->ws_row - 1) * sizeof (ed_frame_node_t *),
-                     ERR, ed);
+      if (!realloc_buffer ((void **) &fp, &fp_size,
+                           (ed->display->ws_row - 1)
+                           * sizeof (ed_frame_node_t *), ed))
+        {
+          spl0 ();
+          return ERR;
+        }
       fb->row = (ed_frame_node_t **) fp;
       for (n = max (0, fb->rows - 1); n < ed->display->ws_row - 1; ++n)
         {
           size = 0;
           fb->row[n] = NULL;
-          REALLOC_THROW (fb->row[n], size, sizeof (ed_frame_node_t), ERR, ed);
+          if (!realloc_buffer ((void **) &fb->row[n], &size,
+                               sizeof (ed_frame_node_t), ed))
+            {
+              spl0 ();
+              return ERR;
+            }
           init_frame_node (fb->row[n]);
         }
 
-- 
2.43.0


From a6570637ad3f268ba9065d990d15d288c7c4c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 02/54] fix: re-enable signals when a text node cannot be
 allocated

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..11d7fca 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -674,7 +674,10 @@ append_text_node (ed_text_node_t *th, const char *tb, const size_t len)
 
   /* Allocate node to push onto text queue */
   if (!(tp = (ed_text_node_t *) malloc (ED_TEXT_NODE_T_SIZE)))
-    return NULL;
+    {
+      spl0 ();
+      return NULL;
+    }
   tp->text = (char *) tb;
   tp->text_i = len;
 
-- 
2.43.0


From 8f79dca9c0fc0ad3ee07e6c9ef82a8bc875b371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 03/54] fix: forget buffer file position when reading a line
 fails or is interrupted

The remembered offset was set to the line's offset before the seek, so
that after a failed or interrupted seek or read the next access to the
line skipped the seek and read text from elsewhere.
---
 src/buf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 11d7fca..15f1545 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -347,8 +347,8 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
   /* out of position */
   if (ed->core->offset != lp->seek)
     {
-      ed->core->offset = lp->seek;
-      if (FSEEK (ed->core->fp, ed->core->offset, SEEK_SET) == -1)
+      ed->core->offset = -1;    /* Unknown until line has been read. */
+      if (FSEEK (ed->core->fp, lp->seek, SEEK_SET) == -1)
         {
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
@@ -358,13 +358,16 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
 
   /* Allocate lp->len + '\0' (or '\n', as per write_stream ()). */
   REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
+  ed->core->offset = -1;        /* In case read fails or is interrupted. */
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
       return NULL;
     }
-  ed->core->offset += lp->len;  /* Update current offset in buffer file. */
+
+  /* Update current offset in buffer file. */
+  ed->core->offset = lp->seek + lp->len;
   *(tb + lp->len) = '\0';
   return tb;
 }
-- 
2.43.0


From 3d2935c079515489a1b7433595d2dfa3ab52b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 04/54] fix: seek before writing again after a failed buffer
 write

Otherwise the next line is recorded at offset -1, or, if only its node
could not be allocated, at the offset of the text that was dropped.
---
 src/buf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 15f1545..6d18e72 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -410,12 +410,17 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
   if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
     {
       ed->core->offset = -1;
+      ed->core->seek_on_write = 1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer write error");
       return NULL;
     }
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
-    return NULL;
+    {
+      ed->core->offset = -1;
+      ed->core->seek_on_write = 1;
+      return NULL;
+    }
 
   ++ed->state->dot;
   ed->core->offset += len;      /* Update current offset in buffer file. */
-- 
2.43.0


From 2bc7d20f016d8fc0e0436623ed8ba87effeca75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 05/54] fix: keep the cached line position consistent when
 interrupted

get_line_node() caches a line node and its address; an interrupt between
their updates left a cache in which they no longer correspond.
---
 src/buf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 6d18e72..9f483bd 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -470,6 +470,9 @@ get_line_node (off_t n, ed_buffer_t *ed)
   static ed_line_node_t *lp = NULL;
   static off_t n_prev = 0;
 
+  ed_line_node_t *np;
+
+  spl1 ();
   if (!lp)
     lp = ed->core->line_head;
 
@@ -497,7 +500,9 @@ get_line_node (off_t n, ed_buffer_t *ed)
             lp = lp->q_forw;
         }
     }
-  return lp;
+  np = lp;
+  spl0 ();
+  return np;
 }
 
 
-- 
2.43.0


From 708aa7cb6dfc72d34752d19f3a814a93a831de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 06/54] fix: exit with a failure status if a child cannot do
 its work

_exit (127 << 8) is truncated to status 0, i.e., success.
---
 src/aux.c  | 4 ++--
 src/cmds.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 187027f..839f652 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -108,7 +108,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
           || execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
@@ -160,7 +160,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
         }
 
       /* Avoid exit (3). */
-      _exit (status < 0 ? 127 << 8 : 0);
+      _exit (status < 0 ? 127 : 0);
     }
 
   /* Close unused pipe ends, then open shell process's standard output. */
diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..12ec70e 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -326,7 +326,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
       if (execl ("/bin/sh", "sh", "-c", sc, NULL) < 0)
         {
           fprintf (stderr, "%s\n", strerror (errno));
-          _exit (127 << 8);
+          _exit (127);
         }
 
       /* NOTREACHED */
-- 
2.43.0


From e73eb368476f63031f4fd2547ec3abf551bfeba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 07/54] fix: reopen the buffer file in the child that writes to
 a filter

The child that writes the range to the filter shares the offset of the
buffer file with the editor, which meanwhile stores the filter's output.
Lines were then stored at, or read from, the wrong offset, e.g., after
'1!cat' in a buffer of 3000 lines.
---
 src/aux.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 839f652..2917e62 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -146,10 +146,13 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
     case 0:
 
       /*
-       * Close unused pipe ends, then open and write to shell
-       * process's standard input.
+       * Reopen buffer file since file offset is shared with parent,
+       * which is going to write to it. Then close unused pipe ends,
+       * and open and write to shell process's standard input.
        */
-      if (close (ip[0]) < 0 || close (op[0]) < 0
+      ed->core->offset = -1;
+      if (!(ed->core->fp = fopen (ed->core->pathname, "r"))
+          || close (ip[0]) < 0 || close (op[0]) < 0
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
-- 
2.43.0


From edd0b47b596242d6c270b050e6daeca8b43a2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 08/54] fix: keep child processes from handling signals as the
 editor

An interrupt delivered to a child before it had reset its signals, or to
the child writing to a filter, made it jump back into the editor's
command loop; on hang-up it removed the editor's temporary files.
---
 src/aux.c  | 13 ++++++++++---
 src/cmds.c |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 2917e62..dd4f34f 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -81,10 +81,15 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       return ERR;
     }
 
-  /* Create first child process for shell command. */
+  /*
+   * Create first child process for shell command. Signals are held so
+   * that the child cannot jump back into the editor.
+   */
+  spl1 ();
   switch (shell_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       close (ip[0]), close (ip[1]);
@@ -117,7 +122,6 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   /* Close write end of pipe op, op[1], so that EOF is seen. */
   close (op[1]);
 
-  spl1 ();
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
       kill (shell_pid, SIGINT);
@@ -131,12 +135,12 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       ed->state->is_binary = 0;
       ed->state->is_empty = 1;
     }
-  spl0 ();
 
   /* Create second child process for writing to shell command. */
   switch (write_pid = fork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       (void) close (ip[1]);
@@ -144,6 +148,8 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       status = ERR;
       goto err;
     case 0:
+      signal (SIGINT, SIG_DFL);
+      signal (SIGHUP, SIG_DFL);
 
       /*
        * Reopen buffer file since file offset is shared with parent,
@@ -165,6 +171,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       /* Avoid exit (3). */
       _exit (status < 0 ? 127 : 0);
     }
+  spl0 ();
 
   /* Close unused pipe ends, then open shell process's standard output. */
   if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
diff --git a/src/cmds.c b/src/cmds.c
index 12ec70e..558df19 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -311,9 +311,12 @@ system_shell (const char *sc, ed_buffer_t *ed)
   int wstatus;
   pid_t shell_pid;
 
+  /* Signals are held so that the child cannot jump into the editor. */
+  spl1 ();
   switch (shell_pid = vfork ())
     {
     case -1:
+      spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
       status = ERR;
@@ -331,6 +334,7 @@ system_shell (const char *sc, ed_buffer_t *ed)
 
       /* NOTREACHED */
     }
+  spl0 ();
 
   while (waitpid (shell_pid, &wstatus, 0) < 0)
     if (errno != EINTR)
-- 
2.43.0


From e04e8ab702020a93086ae01432d84a9ed7788c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 09/54] fix: close pipes when filtering lines fails

Besides leaking descriptors, a failed read left the pipe open while the
editor waited for the command writing to it. write_pid was tested before
it was set if the lines could not be deleted.
---
 src/aux.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index dd4f34f..fd64f9e 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -58,7 +58,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   FILE *ipp, *opp;
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
-  pid_t shell_pid, write_pid;
+  pid_t shell_pid, write_pid = -1;
   off_t size = 0;
   int ip[2], op[2];
   int status = 0;
@@ -74,12 +74,19 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
    * Create two pipes: one for writing to the shell command and
    * another for reading from it.
    */
-  if (pipe (ip) < 0 || pipe (op) < 0)
+  if (pipe (ip) < 0)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
       return ERR;
     }
+  if (pipe (op) < 0)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("Pipe open error");
+      close (ip[0]), close (ip[1]);
+      return ERR;
+    }
 
   /*
    * Create first child process for shell command. Signals are held so
@@ -125,6 +132,8 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   if (ed->exec->region->addrs && (status = delete_lines (from, to, ed)) < 0)
     {
       kill (shell_pid, SIGINT);
+      close (ip[0]), close (ip[1]);
+      close (op[0]);
       spl0 ();
       goto err;
     }
@@ -143,6 +152,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
       spl0 ();
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Fork error");
+      (void) close (ip[0]);
       (void) close (ip[1]);
       (void) close (op[0]);
       status = ERR;
@@ -174,17 +184,23 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
   spl0 ();
 
   /* Close unused pipe ends, then open shell process's standard output. */
-  if (close (ip[0]) < 0 || close (ip[1]) < 0 || !(opp = fdopen (op[0], "r")))
+  close (ip[0]);
+  close (ip[1]);
+  if (!(opp = fdopen (op[0], "r")))
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Pipe open error");
+      close (op[0]);
       status = ERR;
       goto err;
     }
 
   /* Read standard output of shell process via reentrant read_stream. */
   if ((status = read_stream_r (opp, ed->state->dot, &size, ed)) < 0)
-    goto err;
+    {
+      (void) fclose (opp);
+      goto err;
+    }
 
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
 
-- 
2.43.0


From 499e17628a5880bd2b929aa851ccb07cac43fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 10/54] fix: fail if written data cannot be flushed

Errors from flushing the stream, e.g., on a full device, were ignored:
the write was reported as successful and the buffer as unmodified.
---
 src/io.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..49ebf49 100644
--- a/src/io.c
+++ b/src/io.c
@@ -736,12 +736,24 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 #ifdef WANT_ED_ENCRYPTION
   if (ed->exec->have_key)
     {
-      flush_des_file (fp);
+      if (flush_des_file (fp) < 0)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File write error");
+          clearerr (fp);
+          return ERR;
+        }
       if (*size)
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
+  if (fflush (fp) == EOF || ferror (fp))
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
+      clearerr (fp);
+      return ERR;
+    }
 
   return 0;
 }
@@ -802,8 +814,14 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
           clearerr (dest_fp);
           return ERR;
         }
-      fflush (dest_fp);
       clearerr (src_fp);
+      if (fflush (dest_fp) == EOF)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File write error");
+          clearerr (dest_fp);
+          return ERR;
+        }
     }
   else if (ferror (src_fp))
     {
-- 
2.43.0


From 7295b1523af8133d5a168b17179f114970204be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 11/54] fix: keep the handle of the edited file valid after
 other commands use it

---
 src/buf.c |  3 ---
 src/io.c  | 57 ++++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 9f483bd..73270d3 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -197,13 +197,10 @@ init_ed_command (int init_glob, ed_buffer_t *ed)
   /* File info */
 #ifdef WANT_FILE_LOCK
 
-  /* XXX: GNU/Linux double-frees on fclose().  */
-#ifndef __linux__
   if (ed->file->handle)
 
     /* Assert: No writes since fopen(3). */
     (void) fclose (ed->file->handle);
-#endif  /* __linux__ */
 
   ed->file->handle = NULL;
   ed->file->inode = 0;
diff --git a/src/io.c b/src/io.c
index 49ebf49..03f85b6 100644
--- a/src/io.c
+++ b/src/io.c
@@ -104,6 +104,8 @@ read_file (const char *fn, off_t after, off_t *addr,
   if (!already_open && is_default)
     {
       spl1 ();
+      if (ed->file->handle)
+        (void) fclose (ed->file->handle);
       ed->file->inode = inode;
       ed->file->handle = fp;
       ed->file->is_writable = !read_only;
@@ -122,7 +124,11 @@ read_file (const char *fn, off_t after, off_t *addr,
 
 
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+      if (fp != ed->file->handle)
+        (void) fclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   if (read_only
@@ -136,7 +142,7 @@ read_file (const char *fn, off_t after, off_t *addr,
     fprintf (stderr, (ed->exec->opt & VERBOSE
                       ? "%s: Exclusive lock not set\n" : ""), fn);
 
-  if (!is_default)
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
@@ -611,21 +617,30 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         }
     }
 
-  /*
-   * XXX Potential race: Reopening file for writing may lose lock.
-   *
-   * File-locking requires file write access, so this case should not
-   * be reached.
-   */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
+      /*
+       * XXX Potential race: Reopening file for writing may lose lock.
+       *
+       * File-locking requires file write access, so this case should
+       * not be reached.
+       */
+      if (file_already_open)
+        {
+          spl1 ();
+          fp = ed->file->handle;
+          ed->file->handle = NULL;
+          ed->file->inode = 0;
+          ed->file->is_writable = 0;
+          if (fclose (fp) < 0)
+            {
+              spl0 ();
+              fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+              ed->exec->err = _("File close error");
+              return ERR;
+            }
+          spl0 ();
+        }
 #endif  /* WANT_FILE_LOCK */
       if (!(fp = fopen (fn, mode)))
         {
@@ -637,6 +652,8 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
       if (is_default)
         {
           spl1 ();
+          if (ed->file->handle)
+            (void) fclose (ed->file->handle);
           ed->file->inode = inode;
           ed->file->handle = fp;
           ed->file->is_writable = 1;
@@ -648,13 +665,19 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
     }
 #endif  /* WANT_FILE_LOCK */
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+#ifdef WANT_FILE_LOCK
+      if (fp != ed->file->handle)
+#endif
+        (void) fclose (fp);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
 
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From 39d3425d977ccbb05ff4ea86ba23c1a522603999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 12/54] fix: copy filter output by length, it may contain NUL

---
 src/io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 03f85b6..c1a89a5 100644
--- a/src/io.c
+++ b/src/io.c
@@ -318,12 +318,20 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      if (!(_t = (char *) malloc ((len) + 1)))                                \
         {                                                                     \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
           return ERR;                                                         \
         }                                                                     \
+      memcpy (_t, (s), (len) + 1);                                            \
+      if (!append_text_node ((th), _t, (len)))                                \
+        {                                                                     \
+          fprintf (stderr, "%s\n", strerror (errno));                         \
+          (ed)->exec->err = _("Memory exhausted");                            \
+          free (_t);                                                          \
+          return ERR;                                                         \
+        }                                                                     \
     }                                                                         \
   while (0)
 
-- 
2.43.0


From 5da0b946deaf297c0bda625033db69085e1b643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 13/54] fix: reject characters beyond the command table

---
 src/exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 08d95eb..a69f0b5 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -376,8 +376,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
-              : invalid_cmd (ed));
+      return (c >= ED_KEY_FIRST && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[c - ED_KEY_FIRST](ed) : invalid_cmd (ed));
     }
 }
 
-- 
2.43.0


From c0e384ddacb5b68597b971cacce2d4202e0c1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 14/54] fix: exit if the buffer file cannot be reopened

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index a69f0b5..a2bc1db 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -519,7 +519,7 @@ E_cmd (ed_buffer_t *ed)
   if (reopen_ed_buffer (ed) < 0)
     {
       spl0 ();
-      return status;
+      return FATAL;
     }
 
   init_ed_command (cx != '\n', ed);
-- 
2.43.0


From 76c35d6266df978e2a3758e036b7c9c358af39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 15/54] fix: release the temporary file if it cannot be used

---
 src/buf.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 73270d3..ac79120 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -273,18 +273,23 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
   /* NB: Don't unlink(2) buffer upon opening in case it resides on NFS. */
 #ifndef HAVE_MKSTEMP
   if (!mktemp (*name)
-      || (fd = open (*name, O_CREAT | O_EXCL | O_RDWR, 0600)) == -1
-      || FSTAT (fd, &sb) == -1
+      || (fd = open (*name, O_CREAT | O_EXCL | O_RDWR, 0600)) == -1)
 #else
-  if ((fd = mkstemp (*name)) == -1
-      || FSTAT (fd, &sb) == -1
+  if ((fd = mkstemp (*name)) == -1)
 #endif /* mkstemp */
-      || !(*fp = fdopen (fd, "w+")))
     {
       fprintf (stderr, "%s: %s\n", *name, strerror (errno));
       ed->exec->err = _("Buffer open error");
       return ERR;
     }
+  if (FSTAT (fd, &sb) == -1 || !(*fp = fdopen (fd, "w+")))
+    {
+      fprintf (stderr, "%s: %s\n", *name, strerror (errno));
+      ed->exec->err = _("Buffer open error");
+      (void) close (fd);
+      unlink (*name);
+      return ERR;
+    }
 
   /*
    * fstat(3) is supposed to fail if any subpath of `name' is not a
@@ -298,6 +303,8 @@ create_disk_buffer (FILE **fp, char **name, size_t *name_size, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s: Not a regular file\n", *name);
       ed->exec->err = _("Buffer open error");
+      (void) fclose (*fp);
+      *fp = NULL;
       return ERR;
     }
   return 0;
-- 
2.43.0


From 19849ee0301b888c6f84799fdfce521608d3c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 16/54] fix: report failure to empty a register before writing
 it

---
 src/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index c1a89a5..f8f7649 100644
--- a/src/io.c
+++ b/src/io.c
@@ -1034,7 +1034,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
@@ -1103,7 +1103,7 @@ inter_register_copy (int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-- 
2.43.0


From 55f70683ea7f4edd46b995b3cc8077eb98ee6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 17/54] fix: close the pipe if reading or writing it fails

---
 src/io.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index f8f7649..0d34fef 100644
--- a/src/io.c
+++ b/src/io.c
@@ -173,7 +173,10 @@ read_pipe (const char *fn, off_t after, off_t *addr,
       return ERR;
     }
   if ((status = read_stream (fp, after, size, ed)) < 0)
-    return status;
+    {
+      (void) pclose (fp);
+      return status;
+    }
   *addr = ed->state->dot - after;
 
   /* Ignore "no child" error. */
@@ -714,7 +717,10 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       return ERR;
     }
   if ((status = write_stream (fp, lp, n, size, ed)) < 0)
-    return status;
+    {
+      (void) pclose (fp);
+      return status;
+    }
 
   /* Allow writing an empty buffer. */
   *addr = n;
-- 
2.43.0


From 3139040127d7856b3aaf310a8a1154d4b81d373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 18/54] fix: exit if the editor cannot be initialised

---
 src/buf.c  | 3 ++-
 src/main.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index ac79120..3f6b304 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -43,8 +43,9 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
    * shell level. The results are stored in the file_glob structure
    * even if file globbing support is not enabled.
    */
+  if (!(ed->file->list->gl_pathv = dup_argv (argc, argv, ed)))
+    return ERR;
   ed->file->list->gl_pathc = argc;
-  ed->file->list->gl_pathv = dup_argv (argc, argv, ed);
 
   /*
    * Reset file_glob->gl_offs after first glob(3) -- see file_glob().
diff --git a/src/main.c b/src/main.c
index 6ca0d54..cbf8482 100644
--- a/src/main.c
+++ b/src/main.c
@@ -283,7 +283,7 @@ top:
 
   /* Initialize editor buffer and globals. */
   if ((status = one_time_init (argc, argv, ed)) < 0)
-    goto error;
+    script_die (3, ed);
 
   /* Destination of LONGJMP () on signal SIGINT. */
   if ((status = SETJMP (env)))
-- 
2.43.0


From 6e93abc87b8ff001a315e3a0af067f1eb8ddffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 19/54] fix: allow an empty argument list in the environment

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index cbf8482..ce15694 100644
--- a/src/main.c
+++ b/src/main.c
@@ -684,6 +684,10 @@ getenv_init_argv (const char *s, int *argc, ed_buffer_t *ed)
                          (*argc + 2) * sizeof (char *), NULL, ed);
           *((char **) argv + ++*argc) = v;
         }
+      /* No arguments, e.g., only blanks. */
+      if (!*argc)
+        return NULL;
+
       *((char **) argv + ++*argc) = NULL;
       *((char **) argv) = (char *) s;
     }
-- 
2.43.0


From 5253cdb45a7dfb5b632e23cd8a54d3171113932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 20/54] fix: exit if address arguments cannot be processed

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ce15694..b55385c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -218,7 +218,8 @@ top:
     }
 
 #ifdef WANT_ADDRESS_ARGUMENTS
-  argv = collect_address_args (&argc, argv, ed);
+  if (!(argv = collect_address_args (&argc, argv, ed)))
+    script_die (3, ed);
 #endif
 
   /* In case of option `-f' or `-e', rewind internal script file. */
-- 
2.43.0


From 23a0c9d951431f2fbaac9b22ff22120b6bdd0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 21/54] fix: remove the script buffer when printing usage

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index b55385c..5a87839 100644
--- a/src/main.c
+++ b/src/main.c
@@ -883,7 +883,8 @@ for a tutorial introduction to ed.\n\
 Please submit issues or pull requests to: <https://github.com/slewsys/ed>\n"));
 #endif  /* !WANT_SCRIPT_FLAGS */
     }
-  exit (status);
+  fflush (stdout);
+  quit (status, ed);
 }
 
 
-- 
2.43.0


From 7cd7fa4206cb804366046e0c4a948c5b7a69d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 22/54] fix: ignore a window width that is out of range

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5a87839..6507495 100644
--- a/src/main.c
+++ b/src/main.c
@@ -158,8 +158,9 @@ top:
       case 'p':                 /* Set ed command prompt. */
         ed->exec->opt |= PROMPT;
 
+        errno = 0;
         if ((cs = getenv ("COLUMNS")) == NULL || strcmp (cs, "") == 0
-            || (l = strtol (cs, NULL, 10)) == 0)
+            || (l = strtol (cs, NULL, 10)) <= 0 || errno == ERANGE)
           l = WS_COL;
 
         if ((len = strlen (optarg)) >= l - 1
-- 
2.43.0


From cb8e50289e38796690de80e942c9904a37541178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 23/54] fix: keep interrupts from aborting the hang-up handler

---
 src/signal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 6929962..aed038d 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -55,6 +55,9 @@ handle_hup (int signo)
   if (!_sigactive)
     quit (1, ed);
   _sigflags &= ~(1 << (signo - 1));
+
+  /* Don't let an interrupt abandon the write and resume editing. */
+  spl1 ();
   if (ed->state->lines
       && write_file ("ed.hup", 0, 1, ed->state->lines,
                      &addr, &size, "w", ed) < 0
-- 
2.43.0


From 4c396912f449ed5fba167e3f1311e795b99fb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 24/54] fix: allow an empty HOME on hang-up

---
 src/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index aed038d..43d4d1b 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -61,7 +61,7 @@ handle_hup (int signo)
   if (ed->state->lines
       && write_file ("ed.hup", 0, 1, ed->state->lines,
                      &addr, &size, "w", ed) < 0
-      && (s = getenv ("HOME")))
+      && (s = getenv ("HOME")) && *s)
     {
       m = *(s + (len = strlen (s)) - 1) != '/';
       if (!(hup = (char *) malloc ((size_t) (len + m + sizeof template))))
-- 
2.43.0


From b795cb6153507c0378ca795292bada1fe73051a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 25/54] fix: handle a deferred window-size signal once

---
 src/signal.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 43d4d1b..70dd138 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -98,8 +98,7 @@ handle_winch (int signo)
   struct winsize ws;            /* window size structure */
 #endif
 
-  if (_sigactive)
-    _sigflags &= ~(1 << (signo - 1));
+  _sigflags &= ~(1 << (signo - 1));
 #ifdef TIOCGWINSZ
   if (ioctl (0, TIOCGWINSZ, &ws) >= 0)
     {
-- 
2.43.0


From 6832c0fb993c4fda7ba9a65ef49c512d8d207375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 26/54] fix: mark the buffer modified if reading into it fails
 half way

---
 src/io.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0d34fef..6faaa3f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -187,7 +187,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
 
 
 /* PUT_BUFFER_LINE: Add a line of text to the editor buffer. */
-#define PUT_BUFFER_LINE(lp, tb, len, up, addr)                                \
+#define PUT_BUFFER_LINE(lp, tb, len, up, addr, mod)                           \
   do                                                                          \
     {                                                                         \
       spl1 ();                                                                \
@@ -197,6 +197,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
           return ERR;                                                         \
         }                                                                     \
       (lp) = (lp)->q_forw;                                                    \
+      ed->state->is_modified |= (mod);                                        \
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
       spl0 ();                                                                \
     }                                                                         \
@@ -220,6 +221,9 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    */
   int stream_appended = after == ed->state->lines;
 
+  /* Initial contents of the buffer aren't a modification. */
+  int modifies = ed->state->lines > 0;
+
   ed->state->dot = after;
   ed->state->input_is_binary = 0;
   ed->state->newline_missing = 0;
@@ -230,7 +234,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 #endif
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
-    PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot);
+    PUT_BUFFER_LINE (lp, tb, len, up, ed->state->dot, modifies);
   if (feof (fp))
     {
       fflush (fp);
@@ -396,7 +400,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   /* Write stream input to buffer file. */
   while ((t = shift_text_node (&th, &len)))
     {
-      PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot);
+      PUT_BUFFER_LINE (lp, t, len, up, ed->state->dot, 1);
       free (t);
     }
 
-- 
2.43.0


From 0d0101f0863aa974d7d0394f044337062bef62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 27/54] fix: mark added lines as modification even if they
 cannot be recorded

---
 src/cmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 558df19..b50c538 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -73,9 +73,9 @@ append_lines (off_t after, ed_buffer_t *ed)
           return ERR;
         }
       lp = get_line_node (ed->state->dot, ed);
-      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       ed->state->is_empty = 0;
       ed->state->is_modified = 1;
+      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       spl0 ();
     }
   /* NOTREACHED */
@@ -108,8 +108,8 @@ copy_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
               return ERR;
             }
           ed->state->dot = ++after;
-          APPEND_UNDO_NODE (np, up, after, ed);
           ed->state->is_modified = 1;
+          APPEND_UNDO_NODE (np, up, after, ed);
           spl0 ();
         }
     }
-- 
2.43.0


From 094f340ffa32668edafc7994fd3bbd4f8cc01e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 28/54] fix: disable undo if a change cannot be recorded

---
 src/undo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/undo.c b/src/undo.c
index cda513c..0806c5f 100644
--- a/src/undo.c
+++ b/src/undo.c
@@ -24,6 +24,10 @@ append_undo_node (int type, off_t from, off_t to, ed_buffer_t *ed)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("Memory exhausted");
+
+      /* Part of the change would be missing, so forget all of it. */
+      reset_undo_queue (ed);
+      init_ed_state (-1, &ed->state[1]);
       spl0 ();
       return NULL;
     }
-- 
2.43.0


From e257be3749f5dc805cc37d369a470e1d95774c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 29/54] fix: compare device as well as inode to identify the
 edited file

---
 src/ed.h |  1 +
 src/io.c | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 83828b7..52844fb 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -489,6 +489,7 @@ struct ed_file
 #ifdef WANT_FILE_LOCK
   FILE *handle;                 /* File handle. */
   INO_T inode;                  /* File inode. */
+  dev_t device;                 /* Device of file inode. */
 #endif  /* WANT_FILE_LOCK */
 
   glob_t *glob;                 /* Glob of file names. */
diff --git a/src/io.c b/src/io.c
index 6faaa3f..2b9e999 100644
--- a/src/io.c
+++ b/src/io.c
@@ -28,7 +28,7 @@
 /* Static function declarations. */
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
 static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
-static int get_inode (const char *, INO_T *, ed_buffer_t *);
+static int get_inode (const char *, INO_T *, dev_t *, ed_buffer_t *);
 
 
 /* read_file: Read file to buffer; return line count. */
@@ -38,6 +38,7 @@ read_file (const char *fn, off_t after, off_t *addr,
 {
   FILE *fp = NULL;
   INO_T inode;
+  dev_t device;
   int status = 0;
   int already_open = 0;         /* File already open. */
   int already_locked = 0;         /* File already locked. */
@@ -46,11 +47,12 @@ read_file (const char *fn, off_t after, off_t *addr,
 
   *addr = 0;
 #ifdef WANT_FILE_LOCK
-  if (get_inode (fn, &inode, ed) < 0)
+  if (get_inode (fn, &inode, &device, ed) < 0)
     return ERR;
 
   /* File already open. */
-  if ((already_open = (inode && inode == ed->file->inode)))
+  if ((already_open = (inode && inode == ed->file->inode
+                       && device == ed->file->device)))
     {
       if (FSEEK (fp = ed->file->handle, 0L, SEEK_SET) == -1)
         {
@@ -107,6 +109,7 @@ read_file (const char *fn, off_t after, off_t *addr,
       if (ed->file->handle)
         (void) fclose (ed->file->handle);
       ed->file->inode = inode;
+      ed->file->device = device;
       ed->file->handle = fp;
       ed->file->is_writable = !read_only;
       spl0 ();
@@ -605,15 +608,17 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   ed_line_node_t *lp = get_line_node (from, ed);
   off_t n = from ? to - from + 1 : 0;
   INO_T inode;
+  dev_t device;
   int file_already_open = 0;
   int status;
 
 #ifdef WANT_FILE_LOCK
-  if (get_inode (fn, &inode, ed) < 0)
+  if (get_inode (fn, &inode, &device, ed) < 0)
     return ERR;
 
   /* File already open and writable. */
-  if ((file_already_open = (inode && inode == ed->file->inode))
+  if ((file_already_open = (inode && inode == ed->file->inode
+                       && device == ed->file->device))
       && ed->file->is_writable)
     {
       if (FSEEK (fp = ed->file->handle, 0L,
@@ -670,6 +675,7 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
           if (ed->file->handle)
             (void) fclose (ed->file->handle);
           ed->file->inode = inode;
+          ed->file->device = device;
           ed->file->handle = fp;
           ed->file->is_writable = 1;
           spl0 ();
@@ -874,9 +880,9 @@ append_stream (FILE *dest_fp, FILE *src_fp, size_t *size, ed_buffer_t *ed)
   return 0;
 }
 
-/* get_inode: Get file inode, return status. */
+/* get_inode: Get file inode and device, return status. */
 static int
-get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
+get_inode (const char *fn, INO_T *inode, dev_t *device, ed_buffer_t *ed)
 {
   STAT_T sb;
 
@@ -887,6 +893,7 @@ get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
         {
           /* Assert: i-node 0 is not assigned to any file. */
           *inode = 0;
+          *device = 0;
           return 0;
         }
       fprintf (stderr, "%s: %s\n", fn, strerror (errno));
@@ -901,6 +908,7 @@ get_inode (const char *fn, INO_T *inode, ed_buffer_t *ed)
       return ERR;
     }
   *inode = sb.st_ino;
+  *device = sb.st_dev;
   return 0;
 }
 
-- 
2.43.0


From d40381f1f0db11b99425dc9428442965991dbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 30/54] fix: keep the pattern of a repeatable substitution

---
 src/ed.h  |  1 +
 src/re.c  | 52 +++++++++++++++++++++++++++++++---------------------
 src/sub.c |  4 ++++
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 52844fb..709d542 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -987,6 +987,7 @@ int reset_register_buffer (int, ed_buffer_t *);
 #endif
 
 void reset_undo_queue (ed_buffer_t *);
+void release_regex (regex_t *, const struct ed_substitute *);
 int resubstitute (off_t *, off_t *, unsigned *, unsigned *, ed_buffer_t *);
 void save_substitute (regex_t *, unsigned, off_t, off_t, unsigned,
                       struct ed_substitute *);
diff --git a/src/re.c b/src/re.c
index 6ac2173..35e3a97 100644
--- a/src/re.c
+++ b/src/re.c
@@ -7,15 +7,19 @@
 
 #include "ed.h"
 
+/* Global declarations */
+static regex_t *search_re = NULL; /* search regex */
+static regex_t *subst_re = NULL;  /* substitution regex */
+
+
 /* get_compiled_regex: Return pointer to compiled regex from command
    buffer. */
 regex_t *
 get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
 {
   static const char *compile_err = NULL;
-  static regex_t *re_search = NULL; /* search regex */
-  static regex_t *re_subst = NULL;  /* substitution regex */
   regex_t *re = NULL;
+  regex_t *re_prev = NULL;      /* replaced regex */
 
 #ifndef HAVE_REG_SYNTAX_T
   static char re_err[BUFSIZ];   /* regex error message buffer */
@@ -132,15 +136,15 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
       switch (re_type)
         {
         case RE_SUBST:
-          re = ((dc != '\n' && re_search) || ed->exec->subst->r_f ? re_search
-                : re_subst);
-          if (!re_subst)
-            re_subst = re;
+          re = ((dc != '\n' && search_re) || ed->exec->subst->r_f ? search_re
+                : subst_re);
+          if (!subst_re)
+            subst_re = re;
           break;
         case RE_SEARCH:
-          re = re_search ? re_search : re_subst;
-          if (!re_search)
-            re_search = re;
+          re = search_re ? search_re : subst_re;
+          if (!search_re)
+            search_re = re;
           break;
         }
       if (!re)
@@ -215,26 +219,32 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   switch (re_type)
     {
     case RE_SUBST:
-      if (re_subst && re_subst != re_search)
-        {
-          regfree (re_subst);
-          free (re_subst);
-        }
-      re_subst = re;
+      re_prev = subst_re;
+      subst_re = re;
       break;
     case RE_SEARCH:
-      if (re_search && re_search != re_subst)
-        {
-          regfree (re_search);
-          free (re_search);
-        }
-      re_search = re;
+      re_prev = search_re;
+      search_re = re;
       break;
     }
+  release_regex (re_prev, ed->exec->subst);
   return re;
 }
 
 
+/* release_regex: Free compiled regex unless it can be used again. */
+void
+release_regex (regex_t *re, const struct ed_substitute *es)
+{
+  if (!re || re == search_re || re == subst_re || re == es->lhs)
+    return;
+  spl1 ();
+  regfree (re);
+  free (re);
+  spl0 ();
+}
+
+
 /* get_matching_node_addr: Return the address of the next line
    matching a pattern in a given direction. Wrap around begin/end of
    editor buffer if necessary. */
diff --git a/src/sub.c b/src/sub.c
index 6298d7a..3d171ce 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -347,7 +347,11 @@ void
 save_substitute (regex_t *lhs, unsigned s_f, off_t s_nth,
                  off_t s_mod, unsigned sio_f, struct ed_substitute *es)
 {
+  regex_t *lhs_prev = es->lhs;
+
   es->lhs = lhs;
+  if (lhs_prev != lhs)
+    release_regex (lhs_prev, es);
   es->s_nth = s_nth;
   es->s_mod = s_mod;
   es->s_f = s_f;
-- 
2.43.0


From 4c835c5b94fe44b1a9e3f5235dc5ff58fa6f5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 31/54] fix: make room for nested case changes in a
 substitution

---
 src/sub.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 3d171ce..9d56965 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -664,8 +664,7 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   int n;
   int change_once = 0;
 
-  if (cc_size < rhs_i / 2 + 1)
-    REALLOC_THROW (cc, cc_size, rhs_i /  2 + 1, ERR, ed);
+  REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof *cc, ERR, ed);
   cc[cc_top++] = 0;
 
   for (; sub < rhs + rhs_i; ++sub)
-- 
2.43.0


From d8028e056d64cdb06c8a1d32849836fc00c407a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 32/54] fix: classify characters as unsigned

---
 src/ed.h   |  2 +-
 src/exec.c |  4 ++--
 src/page.c |  6 +++---
 src/re.c   |  2 +-
 src/sub.c  | 16 ++++++++--------
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/ed.h b/src/ed.h
index 709d542..655536a 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -783,7 +783,7 @@ enum search_type
       char *_s = *(s) == '-' ? (s) + 1 : (s);                                 \
                                                                               \
       /* No error handling! */                                                \
-      while (isdigit (*_s))                                                   \
+      while (isdigit ((unsigned char) *_s))                                                   \
         _n = _n * 10 + *_s++ - '0';                                           \
       if (sp)                                                                 \
         *(sp) = _s;                                                           \
diff --git a/src/exec.c b/src/exec.c
index a2bc1db..6b739c5 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -83,7 +83,7 @@
           if ((append = *++ed->input == '>'))                                 \
             ++ed->input;                                                      \
           ed->core->regbuf->write_idx =                                       \
-            isdigit (*ed->input) ? *ed->input++ - '0' : REGBUF_MAX - 1;       \
+            isdigit ((unsigned char) *ed->input) ? *ed->input++ - '0' : REGBUF_MAX - 1;       \
         }                                                                     \
       else                                                                    \
         {                                                                     \
@@ -144,7 +144,7 @@
     {                                                                         \
       (ed)->core->regbuf->io_f |= REGISTER_READ;                              \
       (ed)->core->regbuf->read_idx =                                          \
-        isdigit (*(ed)->input) ? *(ed)->input++ - '0' : REGBUF_MAX - 1;       \
+        isdigit ((unsigned char) *(ed)->input) ? *(ed)->input++ - '0' : REGBUF_MAX - 1;       \
       SKIP_WHITESPACE (ed);                                                   \
     }                                                                         \
   while (0)
diff --git a/src/page.c b/src/page.c
index dff6ce0..cb9a8ca 100644
--- a/src/page.c
+++ b/src/page.c
@@ -201,7 +201,7 @@ put_tty_line (ed_line_node_t *lp, off_t addr, ed_buffer_t *ed)
        */
       if (!(ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
             && (ed->display->io_f & LIST)
-              && ((!isalnum ((unsigned) *s)
+              && ((!isalnum ((unsigned char) *s)
                    && col >= ed->display->ws_col - (RIGHT_MARGIN << 1)
                    && strlen (s) > 2)
                   || (col >= ed->display->ws_col - RIGHT_MARGIN
@@ -653,7 +653,7 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
        */
       if ((col >= fb->columns && len > 1)
           || (ed->display->io_f & LIST
-              && ((!isalnum ((unsigned) *s)
+              && ((!isalnum ((unsigned char) *s)
                    && col >= fb->columns - (RIGHT_MARGIN << 1)
                    && len > 2)
                   || (col >= fb->columns - RIGHT_MARGIN
@@ -887,7 +887,7 @@ sgr_span (const char *s)
 
   if (*s != ESCAPE || *++s != '[')
     return 0;
-  while (isdigit (*++s) || *s == ';' || *s == ':')
+  while (isdigit ((unsigned char) *++s) || *s == ';' || *s == ':')
     ;
   return *s == 'm' ? s - t + 1 : 0;
 }
diff --git a/src/re.c b/src/re.c
index 35e3a97..4308189 100644
--- a/src/re.c
+++ b/src/re.c
@@ -32,7 +32,7 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   int status;
 #endif
 
-  if (isspace (dc) && dc != '\n')
+  if (isspace ((unsigned char) dc) && dc != '\n')
     {
       ed->exec->err = _("Invalid pattern delimiter");
       return NULL;
diff --git a/src/sub.c b/src/sub.c
index 9d56965..3227803 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -676,9 +676,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
         while (j < k)
           {
             *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                                ?  toupper (*(boln + j++))
+                                ?  toupper ((unsigned char) *(boln + j++))
                                 : (cc[cc_top - 1] < 0 || change_once < 0)
-                                ? tolower (*(boln + j++))
+                                ? tolower ((unsigned char) *(boln + j++))
                                 : *(boln + j++));
             change_once = 0;
           }
@@ -696,9 +696,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
               while (j < k)
                 {
                   *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                                      ?  toupper (*(boln + j++))
+                                      ?  toupper ((unsigned char) *(boln + j++))
                                       : (cc[cc_top - 1] < 0 || change_once < 0)
-                                      ? tolower (*(boln + j++))
+                                      ? tolower ((unsigned char) *(boln + j++))
                                       : *(boln + j++));
                   change_once = 0;
                 }
@@ -723,9 +723,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
         default:
           REALLOC_THROW (rb, rb_size, *len + 1, ERR, ed);
           *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                              ?  toupper (*sub)
+                              ?  toupper ((unsigned char) *sub)
                               : (cc[cc_top - 1] < 0 || change_once < 0)
-                              ? tolower (*sub)
+                              ? tolower ((unsigned char) *sub)
                               : *sub);
           change_once = 0;
           break;
@@ -734,9 +734,9 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
       {
         REALLOC_THROW (rb, rb_size, *len + 1, ERR, ed);
         *(rb + (*len)++) = ((cc[cc_top - 1] > 0 || change_once > 0)
-                            ?  toupper (*sub)
+                            ?  toupper ((unsigned char) *sub)
                             : (cc[cc_top - 1] < 0 || change_once < 0)
-                            ? tolower (*sub)
+                            ? tolower ((unsigned char) *sub)
                             : *sub);
         change_once = 0;
       }
-- 
2.43.0


From 9f6fe27213d80fdda82230a61f1ba543d5cffd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 33/54] fix: reject marks other than a to z in any locale

---
 src/cmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index b50c538..8cd838f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -246,7 +246,7 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
 int
 mark_line_node (const ed_line_node_t *lp, int n, ed_buffer_t *ed)
 {
-  if (!islower (n))
+  if (n < 'a' || n > 'z')
     {
       ed->exec->err = _("Invalid address mark");
       return ERR;
@@ -262,7 +262,7 @@ mark_line_node (const ed_line_node_t *lp, int n, ed_buffer_t *ed)
 int
 get_marked_node_address (int n, off_t *addr, ed_buffer_t *ed)
 {
-  if (!islower (n))
+  if (n < 'a' || n > 'z')
     {
       ed->exec->err = _("Invalid address mark");
       return ERR;
-- 
2.43.0


From 24398851a2777afe9db44ce545746b80988c97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 34/54] fix: read empty lines at the end of an encrypted file

---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 2b9e999..109f73c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -550,7 +550,9 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
       REALLOC_THROW (tb, tb_size, *len + 1, NULL, ed);
       ed->state->input_is_binary |= !(*(tb + *len) = c);
     }
-  if (feof (fp))
+
+  /* NB: Stream can be at end of file before it's completely decrypted. */
+  if (c == EOF && feof (fp))
     {
       if (!*len)
 
-- 
2.43.0


From b0817cb5ac373abb2e94c68b59c87f61a152af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 35/54] fix: report failure to decrypt a file

---
 src/cbc.c | 10 +++++++++-
 src/io.c  |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cbc.c b/src/cbc.c
index 655c80f..63c69b7 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -370,6 +370,9 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
           if (n < 0 || n > 7)
             {
               ed->exec->err = _("Decryption failed (block corrupted)");
+
+              /* Not to be mistaken for end of file. */
+              clearerr (fp);
               return EOF;
             }
         }
@@ -378,7 +381,12 @@ cbc_decode (unsigned char *msgbuf, FILE *fp, ed_buffer_t *ed)
       return n;
     }
   if (n > 0)
-    ed->exec->err = _("Decryption failed (incomplete block)");
+    {
+      ed->exec->err = _("Decryption failed (incomplete block)");
+
+      /* Not to be mistaken for end of file. */
+      clearerr (fp);
+    }
   else if (n < 0)
     ed->exec->err = _("File read error");
   return EOF;
diff --git a/src/io.c b/src/io.c
index 109f73c..0f26b9e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -581,6 +581,12 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
         /* Propagate stream status - don't call clearerr(3). */
         return NULL;
       }
+#ifdef WANT_ED_ENCRYPTION
+  else if (c == EOF)
+
+    /* Decryption failed. */
+    return NULL;
+#endif
 
   REALLOC_THROW (tb, tb_size, *len + 2, NULL, ed);
   if (fp == stdin)
-- 
2.43.0


From 9d9ddeb7578a337567d1e6fb177035fd3ca38f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 36/54] fix: erase the key from memory for certain

---
 src/cbc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 63c69b7..60a8e93 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -39,6 +39,9 @@ static int cbc_encode (unsigned char *, int, FILE *);
 static int cbc_decode (unsigned char *, FILE *, ed_buffer_t *);
 static int char_to_int (int, int);
 
+/* memset(3) - called via volatile so as not to be optimized away. */
+static void *(*const volatile erase) (void *, int, size_t) = memset;
+
 /* Global variables. */
 static DES_cblock ivec;		/* initialization vector */
 static DES_cblock pvec;		/* padding vector */
@@ -141,9 +144,9 @@ get_des_keyword (ed_buffer_t *ed)
   /* Copy key in key area */
   if ((status = expand_des_key (msgbuf, p, ed)) < 0)
     return status;
-  MEMZERO (p, strlen (p));
+  erase (p, 0, strlen (p));
   set_des_key (&msgbuf);
-  MEMZERO (msgbuf, sizeof msgbuf);
+  erase (msgbuf, 0, sizeof msgbuf);
   ed->exec->have_key = 1;
   return 0;
 }
-- 
2.43.0


From bc490063f600f6e7d01d8cbd75c23035655bc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 37/54] fix: leave all macro frames even if the script cannot
 be repositioned

---
 src/aux.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index fd64f9e..0ce0419 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -384,8 +384,7 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
         {
           fprintf (stderr, "%s\n", strerror (errno));
           ed->exec->err = _("dup2 error");
-          spl0 ();
-          return ERR;
+          status = ERR;
         }
 #else
       stdin = ed->core->stack_frame[0]->fp;
@@ -399,8 +398,7 @@ unwind_stack_frame (int status, ed_buffer_t *ed)
         {
           fprintf (stderr, "stdin: %s\n", strerror (errno));
           ed->exec->err = _("File seek error");
-          spl0 ();
-          return ERR;
+          status = ERR;
         }
       while (ed->core->sp > 0)
         free (ed->core->stack_frame[ed->core->sp--]);
-- 
2.43.0


From d3fe711d78d0fcf70422f97e98947c9be3140dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 38/54] fix: forget buffer file position when seeking to its
 end fails

---
 src/buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buf.c b/src/buf.c
index 3f6b304..4b8c811 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -391,6 +391,7 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
    */
   if (ed->core->seek_on_write)
     {
+      ed->core->offset = -1;    /* In case seek fails. */
       if (FSEEK (ed->core->fp, 0L, SEEK_END) == -1
           || (ed->core->offset = FTELL (ed->core->fp)) == -1)
         {
-- 
2.43.0


From 388e90c41ead0168bcb924cd6f66eeed11457aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 39/54] fix: accept commands m and t in POSIX and traditional
 mode

---
 src/exec.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 6b739c5..4130f7c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -326,14 +326,15 @@ exec_command (ed_buffer_t *ed)
   /* Validate command prefix, if any. */
   switch (c = *ed->input++)
     {
-    case 'm':
-    case 't':
 #ifdef WANT_ED_MACRO
     case '@':
-#endif
       if (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
         return invalid_cmd (ed);
-      else if (ed->file->is_glob)
+      /* FALLTHROUGH */
+#endif
+    case 'm':
+    case 't':
+      if (ed->file->is_glob)
         {
           ed->exec->err = _("Command prefix unexpected");
           return ERR;
-- 
2.43.0


From 6c0530d11cfe43adc6d264bb7ec557fb58303e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 40/54] fix: keep undo history when lines are only copied to a
 register

---
 src/exec.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 4130f7c..5185c2d 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -884,8 +884,12 @@ m_cmd (ed_buffer_t *ed)
       return ERR;
     }
   COMMAND_SUFFIX (ed->display->io_f, ed);
-  if (!ed->exec->global)
-    reset_undo_queue (ed);
+#ifdef WANT_ED_REGISTER
+  /* Moving between registers doesn't change the buffer. */
+  if (ed->core->regbuf->io_f != (REGISTER_READ | REGISTER_WRITE))
+#endif
+    if (!ed->exec->global)
+      reset_undo_queue (ed);
 #ifdef WANT_ED_REGISTER
   switch (ed->core->regbuf->io_f)
     {
@@ -1306,8 +1310,12 @@ t_cmd (ed_buffer_t *ed)
     return status;
   DESTINATION_ADDRESS (addr, ed);
   COMMAND_SUFFIX (ed->display->io_f, ed);
-  if (!ed->exec->global)
-    reset_undo_queue (ed);
+#ifdef WANT_ED_REGISTER
+  /* Copying to a register doesn't change the buffer. */
+  if (!(ed->core->regbuf->io_f & REGISTER_WRITE))
+#endif
+    if (!ed->exec->global)
+      reset_undo_queue (ed);
 #ifdef WANT_ED_REGISTER
   switch (ed->core->regbuf->io_f)
     {
-- 
2.43.0


From 2ce5ef39dd4751d2646bd087b23c0d09dbcc5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 41/54] fix: record an error when a file glob matches no
 directory

---
 src/parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..704f52c 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -547,7 +547,12 @@ expand_glob (char *pattern, int append, glob_t *gp, ed_buffer_t *ed)
 
           /* No directories in expansion. */
           if (gp->gl_pathc <= 0)
-            return NULL;
+            {
+              fprintf (stderr, "%s: %s\n", pattern,
+                       _("No such file or directory"));
+              ed->exec->err = _("Pathname expansion error");
+              return NULL;
+            }
         }
     }
   return gp;
-- 
2.43.0


From 5c51d5a86d393c4a8b7eec8529dc9e6f546dd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 42/54] fix: record an error when input ends within a continued
 line

---
 src/io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0f26b9e..b269586 100644
--- a/src/io.c
+++ b/src/io.c
@@ -496,9 +496,13 @@ get_extended_line (size_t *len, int nonl, int escape, ed_buffer_t *ed)
       *(xl + *len - 1) = '\n';
 
       if (!(ed->input = get_stdin_line (&n, ed)))
+        {
+          if (feof (stdin))
+            ed->exec->err = _("End-of-file unexpected");
 
-        /* Propagate stream status - don't call clearerr(3). */
-        return NULL;
+          /* Propagate stream status - don't call clearerr(3). */
+          return NULL;
+        }
       if (*(ed->input + n - 1) != '\n')
         {
           ed->exec->err = _("End-of-file unexpected");
-- 
2.43.0


From bfab68a899b9930dd9715ce8046ab1bbcc9d22f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 43/54] fix: refuse file list name beginning with exclamation
 mark in restricted mode

---
 src/parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 704f52c..242bd9b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -569,6 +569,14 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   char *s;
   size_t len;
 
+  /* Name of file in list is executed as shell command if it begins
+     with an exclamation mark (!). */
+  if (ed->exec->opt & RESTRICTED && *name == '!')
+    {
+      ed->exec->err = _("Shell access restricted");
+      return NULL;
+    }
+
   /* Push file name onto command buffer. Append newline if missing. */
   len = strlen (ed->input = (char *) name);
   if (name[len - 1] != '\n')
-- 
2.43.0


From 60cde4350ecfc836b7abc09a37a78cf4155add7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 44/54] fix: refuse address offsets whose sum overflows

---
 src/parse.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 242bd9b..f922d1a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -164,6 +164,20 @@ line_address (off_t *addr, ed_buffer_t *ed)
 }
 
 
+/* add_offset: Add offset to address; return status. */
+static int
+add_offset (off_t *addr, off_t n, ed_buffer_t *ed)
+{
+  if (n < 0 ? *addr < OFF_T_MIN - n : OFF_T_MAX - n < *addr)
+    {
+      ed->exec->err = _("Numerical result out of range");
+      return ERR;
+    }
+  *addr += n;
+  return 0;
+}
+
+
 /*  address_offset: Apply offset from command buffer to address. */
 int
 address_offset (off_t *addr, ed_buffer_t *ed)
@@ -184,18 +198,21 @@ address_offset (off_t *addr, ed_buffer_t *ed)
       case '8':
       case '9':
         STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if (add_offset (addr, n, ed) < 0)
+          return ERR;
         break;
       case '+':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if (add_offset (addr, n, ed) < 0)
+          return ERR;
         break;
       case '-':
       case '^':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr -= n;
+        if (add_offset (addr, -n, ed) < 0)
+          return ERR;
         break;
       case ' ':
       case '\t':
@@ -203,7 +220,8 @@ address_offset (off_t *addr, ed_buffer_t *ed)
         if (isdigit ((unsigned char) *ed->input))
           {
             STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-            *addr += n;
+            if (add_offset (addr, n, ed) < 0)
+              return ERR;
           }
         break;
       default:
-- 
2.43.0


From 9f66dfb49826179a2abd6a68f4b8b555444d5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 45/54] fix: no division by zero when the substitution
 frequency comes to zero

---
 src/sub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index 3227803..1863160 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -522,7 +522,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* NIL (i.e., empty) match counts towards s_nth iff previous
          match was NIL. */
       else if ((!nil_next || nil_prev) && ++k >= s_nth
-               && !((k - s_nth)  % s_mod))
+               && (s_mod > 0 ? !((k - s_nth)  % s_mod) : k == s_nth))
         {
           REALLOC_THROW (rb, rb_size, *len + i, ERR, ed);
 #ifndef REG_STARTEND
-- 
2.43.0


From 4bf733d6bf06a9d6ae1aa3ab7e6ba03f2c737448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 46/54] fix: default window size when LINES or COLUMNS is
 unusable

---
 src/buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 4b8c811..a18d1e2 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -70,7 +70,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_row)
+  if (!ed->display->ws_row)
     ed->display->ws_row = WS_ROW;
 
   if ((cs = getenv ("COLUMNS")))
@@ -81,7 +81,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_col)
+  if (!ed->display->ws_col)
     ed->display->ws_col = WS_COL;
 
   /* Assign a default command prompt. */
-- 
2.43.0


From 577d6a00114288317c54e46b749bfa64d161ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 47/54] fix: visit lines that a global move passes over

---
 src/cmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8cd838f..46fc43f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -202,6 +202,8 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
     {
       a2 = get_line_node (succ, ed);
       b2 = get_line_node (prec, ed);
+      if (ed->exec->global)
+        delete_global_nodes (b2->q_forw, a2, ed);
       ed->state->dot = to;
     }
   else if (!append_undo_node (UMOV, prec, succ, ed)
@@ -228,14 +230,15 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
           /* this get_line_node last! */
           b1 = get_line_node (prec, ed);
         }
+      /* Delete global nodes while lines are still in queue order. */
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       a2 = b2->q_forw;
       LINK_NODES (b2, b1->q_forw);
       LINK_NODES (a1->q_back, a2);
       LINK_NODES (b1, a1);
       ed->state->dot = after + (from > after ? to - from + 1 : 0);
     }
-  if (ed->exec->global)
-    delete_global_nodes (b2->q_forw, a2, ed);
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
-- 
2.43.0


From f4bce42305e4220ba42d42f8a03b432044167b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 48/54] fix: keep a global command global after it edits
 another file

---
 src/exec.c | 8 ++++++++
 src/main.c | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 5185c2d..aa3e5bb 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -487,6 +487,7 @@ E_cmd (ed_buffer_t *ed)
   char *fn = NULL;
   int cx = 0;
   int cy = 0;
+  int global = ed->exec->global;
   int is_default = 0;
   int status = 0;               /* Return status */
 
@@ -524,6 +525,9 @@ E_cmd (ed_buffer_t *ed)
     }
 
   init_ed_command (cx != '\n', ed);
+
+  /* The rest of a global command list is still part of it. */
+  ed->exec->global = global;
   init_ed_state (0, &ed->state[0]);
   init_ed_state (-1, &ed->state[1]);
   spl0 ();
@@ -557,6 +561,10 @@ E_cmd (ed_buffer_t *ed)
       if (ed->file->is_glob && ed->exec->opt & VERBOSE)
         puts (ed->file->name);
     }
+
+  /* Nothing to undo, except by the rest of a global command list. */
+  if (global)
+    reset_undo_queue (ed);
   printf (ed->exec->opt & SCRIPTED ? "" : "%" OFF_T_FORMAT_STRING "\n", size);
 
   /* Per SUSv4, exit_status cannot be reset. We'll do it anyhow ... */
diff --git a/src/main.c b/src/main.c
index 6507495..1d60a81 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,6 +311,7 @@ top:
   activate_signals ();
 
  next:
+  ed->exec->global = 0;
 
   /* If more files in list, edit next per status. */
   if (ed->file->list->gl_pathc)
-- 
2.43.0


From 4e6b66f08c9b62b443c52599a16ff0675d40cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 49/54] fix: a read that fails half way no longer leaves the
 buffer logically empty

---
 src/io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.c b/src/io.c
index b269586..ff8acde 100644
--- a/src/io.c
+++ b/src/io.c
@@ -200,6 +200,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
           return ERR;                                                         \
         }                                                                     \
       (lp) = (lp)->q_forw;                                                    \
+      ed->state->is_empty = 0;                                                \
       ed->state->is_modified |= (mod);                                        \
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
       spl0 ();                                                                \
-- 
2.43.0


From 233f5aa1b161e729b2f8a24ee5441a7edd93413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 50/54] fix: print suffix after address 0 printed a line that
 does not exist

---
 src/page.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/page.c b/src/page.c
index cb9a8ca..c149d08 100644
--- a/src/page.c
+++ b/src/page.c
@@ -56,6 +56,11 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
   /* Trivially allow printing empty buffer. */
   if (!ed->state->lines)
     return 0;
+  if (from < 1)
+    {
+      ed->exec->err = _("Address out of range");
+      return ERR;
+    }
 
   ep = get_line_node (INC_MOD (to, ed->state->lines), ed);
   bp = get_line_node (from, ed);
@@ -284,6 +289,11 @@ display_lines (off_t from, off_t to, ed_buffer_t *ed)
   /* Trivially allow printing empty buffer. */
   if (!ed->state->lines)
     return 0;
+  if (from < 1)
+    {
+      ed->exec->err = _("Address out of range");
+      return ERR;
+    }
 
   /* XXX: Half-page scolling addresses are lost but need to be
      retained for this condition. */
-- 
2.43.0


From 76f25129afa6bb191804d02d4fa08048fd7907f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 51/54] fix: an encryption key made filters, register appends
 and macros fail

---
 src/aux.c |  5 +++++
 src/cbc.c | 15 +++++++++++++--
 src/ed.h  |  3 ++-
 src/io.c  | 40 ++++++++++++++++++++++++++++++++++------
 4 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index 0ce0419..f7eb708 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -167,6 +167,11 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
        * and open and write to shell process's standard input.
        */
       ed->core->offset = -1;
+#ifdef WANT_ED_ENCRYPTION
+
+      /* Input of a filter is not encrypted. */
+      ed->exec->have_key = 0;
+#endif
       if (!(ed->core->fp = fopen (ed->core->pathname, "r"))
           || close (ip[0]) < 0 || close (op[0]) < 0
           || !(ipp = fdopen (ip[1], "w"))
diff --git a/src/cbc.c b/src/cbc.c
index 60a8e93..4311075 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -67,10 +67,13 @@ static unsigned char des_buf[8];  /* Buffer for get_des_char/put_des_char. */
 static int des_ct = 0;          /* Count for get_des_char/put_des_char. */
 static int des_n = 0;           /* Index for put_des_char/get_des_char. */
 
-/* init_des_cipher: Initialize DES. */
+static FILE *des_fp = NULL;     /* Stream being encrypted or decrypted. */
+
+/* init_des_cipher: Initialize DES for given stream, if any. */
 void
-init_des_cipher (void)
+init_des_cipher (FILE *fp)
 {
+  des_fp = fp;
   des_ct = des_n = 0;
 
   /* Initialize initialization vector. */
@@ -81,6 +84,14 @@ init_des_cipher (void)
 }
 
 
+/* is_des_file: Return true if stream is encrypted. */
+int
+is_des_file (FILE *fp)
+{
+  return fp && fp == des_fp;
+}
+
+
 /* get_des_char: Return next char in encrypted file. */
 int
 get_des_char (FILE *fp, ed_buffer_t *ed)
diff --git a/src/ed.h b/src/ed.h
index 655536a..860c87b 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -926,7 +926,7 @@ size_t get_path_max (const char *);
 char *get_stream_line (FILE *, size_t *, ed_buffer_t *);
 
 #ifdef WANT_ED_ENCRYPTION
-void init_des_cipher (void);
+void init_des_cipher (FILE *);
 #endif
 
 void init_ed_command (int, ed_buffer_t *);
@@ -950,6 +950,7 @@ int inter_register_move (int, ed_buffer_t *);
 #endif
 
 int is_fifo (const char *, ed_buffer_t *);
+int is_des_file (FILE *);
 int is_utf8_str (const char *, size_t);
 int join_lines (off_t, off_t, ed_buffer_t *);
 int mark_global_nodes (int, ed_buffer_t *);
diff --git a/src/io.c b/src/io.c
index ff8acde..bbdc506 100644
--- a/src/io.c
+++ b/src/io.c
@@ -26,6 +26,9 @@
 #endif  /* HAVE_FCNTL_H */
 
 /* Static function declarations. */
+#ifdef WANT_ED_ENCRYPTION
+static FILE *des_file (FILE *, ed_buffer_t *);
+#endif
 static int put_stream_line (FILE *, const char *, size_t, ed_buffer_t *);
 static int read_stream (FILE *, off_t, off_t *, ed_buffer_t *);
 static int get_inode (const char *, INO_T *, dev_t *, ed_buffer_t *);
@@ -208,6 +211,24 @@ read_pipe (const char *fn, off_t after, off_t *addr,
   while (0)
 
 
+#ifdef WANT_ED_ENCRYPTION
+/* des_file: Return stream if it is to be encrypted, or NULL if it is a
+   register, whose contents never leave the editor. */
+static FILE *
+des_file (FILE *fp, ed_buffer_t *ed)
+{
+# ifdef WANT_ED_REGISTER
+  int i;
+
+  for (i = 0; i < REGBUF_MAX; ++i)
+    if (fp == ed->core->regbuf->fp[i])
+      return NULL;
+# endif
+  return fp;
+}
+#endif  /* WANT_ED_ENCRYPTION */
+
+
 /*
  * read_stream: Read a stream into the editor buffer after the given
  *   address. Parameter *size is set to bytes read.
@@ -234,7 +255,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 
 #ifdef WANT_ED_ENCRYPTION
   if (ed->exec->have_key)
-    init_des_cipher ();
+    init_des_cipher (des_file (fp, ed));
 #endif
 
   for (*size = 0; (tb = get_stream_line (fp, &len, ed)); *size += len)
@@ -314,7 +335,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
     fprintf (stderr, _("Newline appended\n"));
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (ed->exec->have_key && is_des_file (fp))
     if (*size)
       *size += 8 - *size % 8;     /* Adjust for DES padding. */
 #endif
@@ -369,6 +390,12 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
 
   init_text_deque (&th);
 
+#ifdef WANT_ED_ENCRYPTION
+  /* Output of a filter is not encrypted. */
+  if (ed->exec->have_key)
+    init_des_cipher (NULL);
+#endif
+
   /* Read stream into memory to avoid reentrant calls to buffer file I/O. */
   for (*size = 0; (s = get_stream_line (fp, &len, ed)); *size += len)
     APPEND_TEXT_NODE (&th, s, len, ed);
@@ -546,7 +573,7 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
 
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; (c = (ed->exec->have_key && fp != stdin ? get_des_char (fp, ed)
+  for (; (c = (ed->exec->have_key && is_des_file (fp) ? get_des_char (fp, ed)
                : getc (fp))) != EOF && c != '\n'; ++*len)
 #else
   for (; (c = getc (fp)) != EOF && c != '\n'; ++*len)
@@ -767,7 +794,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 
 #ifdef WANT_ED_ENCRYPTION
   if (ed->exec->have_key)
-    init_des_cipher ();
+    init_des_cipher (des_file (fp, ed));
 #endif
 
   /* Per SUSv4, permit writing an empty buffer. */
@@ -794,7 +821,7 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
     }
 
 #ifdef WANT_ED_ENCRYPTION
-  if (ed->exec->have_key)
+  if (ed->exec->have_key && is_des_file (fp))
     {
       if (flush_des_file (fp) < 0)
         {
@@ -825,7 +852,8 @@ put_stream_line (FILE *fp, const char *s, size_t len, ed_buffer_t *ed)
 {
  top:
 #ifdef WANT_ED_ENCRYPTION
-  for (; len && (ed->exec->have_key ? put_des_char ((unsigned) *s, fp)
+  for (; len && (ed->exec->have_key && is_des_file (fp)
+                 ? put_des_char ((unsigned) *s, fp)
                  : putc ((unsigned) *s, fp)) != EOF; --len, ++s)
 #else
   for (; len && putc ((unsigned) *s, fp) != EOF; --len, ++s)
-- 
2.43.0


From bca380bcbbe9d91946c51074257aa7699eb05821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 52/54] fix: an invalid encryption key stayed in memory

---
 src/cbc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 4311075..98910e0 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -153,9 +153,13 @@ get_des_keyword (ed_buffer_t *ed)
     }
 
   /* Copy key in key area */
-  if ((status = expand_des_key (msgbuf, p, ed)) < 0)
-    return status;
+  status = expand_des_key (msgbuf, p, ed);
   erase (p, 0, strlen (p));
+  if (status < 0)
+    {
+      erase (msgbuf, 0, sizeof msgbuf);
+      return status;
+    }
   set_des_key (&msgbuf);
   erase (msgbuf, 0, sizeof msgbuf);
   ed->exec->have_key = 1;
-- 
2.43.0


From 08e22a59eec31301a5ea6a13b7b8ae01e6b8a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 53/54] fix: a script file that could not be read stayed open

---
 src/main.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1d60a81..6382a9a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -792,20 +792,23 @@ append_script_file (char *fn, ed_buffer_t *ed)
   if (!ed->exec->fp)
     {
       if ((status = init_script_buffer (ed)) < 0)
-        return status;
+        {
+          fclose (fp);
+          return status;
+        }
     }
   else if (FSEEK (ed->exec->fp, 0L, SEEK_END) == -1)
     {
       fprintf (stderr, "%s\n", strerror (errno));
       ed->exec->err = _("File seek error");
       clearerr (ed->exec->fp);
+      fclose (fp);
       return ERR;
     }
 
-  if ((status = append_stream (ed->exec->fp, fp, &fp_size, ed)) < 0)
-    return status;
+  status = append_stream (ed->exec->fp, fp, &fp_size, ed);
   fclose (fp);
-  return 0;
+  return status < 0 ? status : 0;
 }
 #endif  /* WANT_SCRIPT_FLAGS */
 
-- 
2.43.0


From a33e97dc231f6a7a0b95ce60b2b50e12848b58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:12 +0000
Subject: [PATCH 54/54] fix: keep current address in an empty buffer after an
 empty insert

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index aa3e5bb..adbe438 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -797,7 +797,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->state->lines, ed->exec->region->end);
   return ed->display->io_f;
 }
 
-- 
2.43.0

