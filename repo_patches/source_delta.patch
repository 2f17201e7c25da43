From 7cc46b7767376993dc107a27b47ee1572a9ea3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 01/13] fix: forget buffer wrap-around when a shut down
 object's buffer is flushed

shutdown_obj() rewinds the circular buffer but left gotBufWrap set, so a
log replay after a log was reopened returned old bytes in the wrong order.
---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..b16e46d 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -835,6 +835,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From f65d2f3cd5cc2a3bfc5d3305816a16deb723cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 02/13] fix: do not end a telnet subnegotiation at a doubled
 IAC

---
 src/server-telnet.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..f3300cf 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -385,6 +385,16 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
             else
                 *q++ = *p;
             break;
+        case SE:
+            /*
+             *  An IAC was found within a subnegotiation.  If doubled, it is
+             *    a data byte of the subnegotiation; o/w, it starts a command.
+             */
+            if (*p == IAC) {
+                telnet->aux.telnet.iac = SB;
+                break;
+            }
+            /* fall-thru */
         case IAC:
             switch (*p) {
             case IAC:
@@ -424,11 +434,11 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found; then set
+             *    the state to SE assuming the next byte will be the SE cmd.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From 7313cf76587f2ba8c1efc35a8d5be0cb5710bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 03/13] fix: reset the telnet decoder when a new connection is
 established

---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index f3300cf..70ec6be 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -265,6 +265,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From f443da5c6cc002a52a7708a05758bc35d8a7bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 04/13] fix: pass the console name to a telnet state error
 message

---
 src/server-telnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 70ec6be..ed97271 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -262,7 +262,7 @@ static int connect_telnet_obj(obj_t *telnet)
     }
     else {
         log_err(0, "Console [%s] is in unexpected telnet state=%d",
-            telnet->aux.telnet.state);
+            telnet->name, telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
     telnet->aux.telnet.iac = -1;
-- 
2.43.0


From 044e9d7c622f1c164b1d7997e11639ee0c0b8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:10 +0000
Subject: [PATCH 05/13] fix: do not read past a full unterminated buffer in
 append_format_string

---
 src/util-str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util-str.c b/src/util-str.c
index 2de4f0e..8813374 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -190,7 +190,7 @@ int append_format_string(char *dst, size_t size, const char *fmt, ...)
     }
     p = dst;
     num_left = size;
-    while ((*p != '\0') && (num_left > 0)) {
+    while ((num_left > 0) && (*p != '\0')) {
         p++;
         num_left--;
     }
-- 
2.43.0


From e0191969644e812d00049cf46100a7a7190a6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 06/13] fix: ignore session escapes from a client whose console
 has been stolen

link_objs() unlinks a displaced writer from everything, but its socket is
still read until its pending output has been flushed.  An escape sequence
received from it in the meantime (monitor, join, force) dereferenced the
NULL returned by list_peek() on its now empty list of writers.
---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..0191a86 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -236,6 +236,12 @@ static void perform_console_writer_linkage(obj_t *client)
         return;
     assert(list_count(client->readers) <= 1);
 
+    /*  A client whose console has been stolen is no longer linked to anything,
+     *    and will be closed once its pending output has been flushed.
+     */
+    if (list_is_empty(client->writers))
+        return;
+
     /*  A R/O or R/W client will have exactly one console writer.
      */
     assert(list_count(client->writers) == 1);
-- 
2.43.0


From 7a6c73737f03daf7aade6d01b0ce3a6d662d9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 07/13] fix: do not let a monitor escape grant write-privileges

The monitor, join, and force escapes all toggled the session between
read-only and read-write, so a monitor escape sent by a read-only session
joined the existing writers of the console, and a join or force escape sent
by a read-write session dropped its write-privileges.
---
 src/server-esc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index 0191a86..f9f4aab 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -227,6 +227,7 @@ static void perform_console_writer_linkage(obj_t *client)
  */
     obj_t *console;
     int gotWrite;
+    int wantWrite;
 
     assert(is_client_obj(client));
 
@@ -253,6 +254,14 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     gotWrite = list_count(client->readers);
 
+    /*  Only "join" and "force" grant write-privileges, and only "monitor" drops
+     *    them; requesting what the session already has is a no-op.
+     */
+    wantWrite = client->aux.client.req->enableForce
+        || client->aux.client.req->enableJoin;
+    if (!gotWrite == !wantWrite)
+        return;
+
     if (gotWrite) {
         client->aux.client.req->command = CONMAN_CMD_MONITOR;
         unlink_objs(client, console);
-- 
2.43.0


From 3cfcedca2da25d0bc440b0fe30c73bfbb2184f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 08/13] fix: do not read past a template ending in a single
 percent sign

---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index b16e46d..4c7562e 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -329,12 +329,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || ((*pspec = *psrc) == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 2d8105361263735f39151f83c65f4fb6508fc0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:12 +0000
Subject: [PATCH 09/13] fix: compare expanded logfile names when checking for
 duplicates

---
 src/server-logfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..433ddb6 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -155,7 +155,7 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         }
         return(NULL);
     }
-    logfile = create_obj(conf, name, -1, CONMAN_OBJ_LOGFILE);
+    logfile = create_obj(conf, pname, -1, CONMAN_OBJ_LOGFILE);
     logfile->aux.logfile.console = console;
     logfile->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
     logfile->aux.logfile.opts = *opts;
-- 
2.43.0


From 9a855b3c9c9c1c584d98cc9117d33d3e9a6f1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:39 +0000
Subject: [PATCH 10/13] fix: clear errno before parsing a test console option

strtol() leaves errno unchanged on success, so after any earlier ERANGE
a valid option value was rejected.
---
 src/server-test.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-test.c b/src/server-test.c
index 56b2812..bd5dad8 100644
--- a/src/server-test.c
+++ b/src/server-test.c
@@ -150,6 +150,7 @@ static int process_test_opt(
     }
     c = toupper((int) str[0]);
     p = str + 2;
+    errno = 0;
     l = strtol(p, &endp, 0);
     if ((*endp != '\0') || (errno == ERANGE) || (l < 0) || (l > INT_MAX)) {
         if ((errbuf != NULL) && (errlen > 0)) {
-- 
2.43.0


From c0c4b94fe3b0712c7c5f8fa75a11eff241ae19ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 11/13] fix: reject IPMI option values that do not fit their
 type

A number beyond the range of int (or unsigned int for workaround flags)
was silently truncated to a different, valid value.
---
 src/server-ipmi.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 5e51aa7..4ae8efd 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -35,6 +35,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -490,7 +491,8 @@ static int process_ipmi_opt_privilege(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI privilege level \"%s\"", str);
@@ -531,7 +533,8 @@ static int process_ipmi_opt_cipher(
         errno = 0;
         n = strtol(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE)
+                || (n < INT_MIN) || (n > INT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI cipher suite \"%s\"", str);
@@ -618,13 +621,13 @@ static int process_ipmi_opt_workaround(
         flag = 0;
     }
     else {
-        unsigned int  u;
-        char         *p;
+        unsigned long  u;
+        char          *p;
 
         errno = 0;
         u = strtoul(str, &p, 0);
 
-        if ((*p != '\0') || (errno == ERANGE)) {
+        if ((*p != '\0') || (errno == ERANGE) || (u > UINT_MAX)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
                     "invalid IPMI workaround flag \"%s\"", str);
@@ -634,7 +637,7 @@ static int process_ipmi_opt_workaround(
         else if (!ipmiconsole_workaround_flags_is_valid(u)) {
             if ((errbuf != NULL) && (errlen > 0)) {
                 snprintf(errbuf, errlen,
-                    "invalid IPMI workaround flag 0x%X", u);
+                    "invalid IPMI workaround flag 0x%lX", u);
             }
             return(-1);
         }
-- 
2.43.0


From 4b0642579142c62c7c285eaded422ec33e3168c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:14 +0000
Subject: [PATCH 12/13] revert "fix: clear errno before parsing a test console
 option"

src/server-test.c is to be left alone; the finding is recorded instead.
---
 src/server-test.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server-test.c b/src/server-test.c
index bd5dad8..56b2812 100644
--- a/src/server-test.c
+++ b/src/server-test.c
@@ -150,7 +150,6 @@ static int process_test_opt(
     }
     c = toupper((int) str[0]);
     p = str + 2;
-    errno = 0;
     l = strtol(p, &endp, 0);
     if ((*endp != '\0') || (errno == ERANGE) || (l < 0) || (l > INT_MAX)) {
         if ((errbuf != NULL) && (errlen > 0)) {
-- 
2.43.0


From 07719de3b153fb8ece39fb7bf5e2801f89532b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:31 +0000
Subject: [PATCH 13/13] fix: recognize an escape character above 0x7f

The typed byte is unsigned; compared with a plain char it never matched.
---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..9fbeb87 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -162,7 +162,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0

