From 68e7e8bc47a8fedda9bd5bd65ea1a015b9ce9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 01/23] fix: test for an empty buffer at EOF with the buffer
 mutex held

read_from_obj() compared the circular-buffer pointers of an obj that has
reached EOF without holding its bufLock, while another thread could be in
the middle of updating them in write_obj_data().
---
 src/server-obj.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..3a91896 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -920,7 +920,9 @@ again:
         }
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
+        x_pthread_mutex_lock(&obj->bufLock);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
+        x_pthread_mutex_unlock(&obj->bufLock);
         return(isEmpty ? shutdown_obj(obj) : 0);
     }
     else {
-- 
2.43.0


From 40c3c36f24d69861dd813017b871d5fd2068b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 02/23] fix: set close-on-exec on client sockets as soon as
 they are accepted

A client socket was not marked close-on-exec until its request had been
parsed and turned into a client obj.  Until then, every process console or
reset command started by the daemon inherited it.
---
 src/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.c b/src/server.c
index 6b91370..dfa6a5a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -994,6 +994,7 @@ static void accept_client(server_conf_t *conf)
      *  Consequently, we force the new fd to be blocking here for portability.
      */
     set_fd_blocking(sd);
+    set_fd_closed_on_exec(sd);
 
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
-- 
2.43.0


From 14e5a95d25cc39d011c19ce777549526284a076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 03/23] fix: do not exit when a client's address cannot be
 obtained

A client that resets its connection before the daemon's thread asks for its
address makes getpeername() fail with ENOTCONN; drop the client instead.
---
 src/server-sock.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..55e78a0 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -171,10 +171,17 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
-    if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
-        log_err(errno, "Unable to convert network address into string");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_NOTICE, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
+    if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf))) {
+        log_msg(LOG_NOTICE,
+            "Unable to convert network address into string: %s",
+            strerror(errno));
+        return(-1);
+    }
     req->port = ntohs(addr.sin_port);
     req->ip = create_string(buf);
     /*
-- 
2.43.0


From b85c91c196b5eeaeba56c61f9825d5e4692e41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 04/23] fix: do not exit when a client connection cannot be
 accepted

Running out of descriptors or threads (or a peer resetting its connection
while it is being set up) now drops that connection attempt instead of
terminating the daemon and every console session with it.
---
 src/server.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index dfa6a5a..917ddc2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -982,7 +982,9 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
-        log_err(errno, "Unable to accept new connection");
+        log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+            strerror(errno));
+        return;
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
 
@@ -999,7 +1001,8 @@ static void accept_client(server_conf_t *conf)
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
           (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set KEEPALIVE socket option");
+            log_msg(LOG_WARNING, "Unable to set KEEPALIVE socket option: %s",
+                strerror(errno));
         }
     }
     /*  Create a tmp struct to hold two args to pass to the thread.
@@ -1013,7 +1016,9 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        (void) close(sd);
+        free(args);
     }
     return;
 }
-- 
2.43.0


From 2cbcb6570454b113c4b2ee2689bb987bfda55398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 05/23] fix: do not exit when a telnet console's socket cannot
 be set up

Retry the connection later, as for every other connection failure.
---
 src/server-telnet.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..69035c0 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,16 +204,23 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set OOBINLINE socket option");
+            log_msg(LOG_WARNING,
+                "Unable to set OOBINLINE socket option for [%s]: %s",
+                telnet->name, strerror(errno));
         }
         if (telnet->aux.telnet.enableKeepAlive) {
             if (setsockopt(telnet->fd, SOL_SOCKET, SO_KEEPALIVE,
                     (const void *) &on, sizeof(on)) < 0) {
-                log_err(errno, "Unable to set KEEPALIVE socket option");
+                log_msg(LOG_WARNING,
+                    "Unable to set KEEPALIVE socket option for [%s]: %s",
+                    telnet->name, strerror(errno));
             }
         }
         set_fd_nonblocking(telnet->fd);
-- 
2.43.0


From 583877a7e6cfd8ebd6b983dc95dbf65b44f4a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 06/23] fix: pass the console name to the
 unexpected-telnet-state message

---
 src/server-telnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 69035c0..3ba5d5b 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -269,7 +269,7 @@ static int connect_telnet_obj(obj_t *telnet)
     }
     else {
         log_err(0, "Console [%s] is in unexpected telnet state=%d",
-            telnet->aux.telnet.state);
+            telnet->name, telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
-- 
2.43.0


From e81877baaef1243d65f825627ae7b3a993452fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 07/23] fix: do not exit when closing a connection reports an
 error

close() releases the descriptor even when it reports an error of the peer or
of the transport; log it as the other close() calls do.
---
 src/common.c         | 3 ++-
 src/server-process.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..3edb912 100644
--- a/src/common.c
+++ b/src/common.c
@@ -116,7 +116,8 @@ void destroy_req(req_t *req)
 
     if (req->sd >= 0) {
         if (close(req->sd) < 0)
-            log_err(errno, "close() failed on fd=%d", req->sd);
+            log_msg(LOG_WARNING, "close() failed on fd=%d: %s",
+                req->sd, strerror(errno));
         req->sd = -1;
     }
     if (req->user)
diff --git a/src/server-process.c b/src/server-process.c
index 84642f2..85ac368 100644
--- a/src/server-process.c
+++ b/src/server-process.c
@@ -348,7 +348,8 @@ static int connect_process_obj(obj_t *process)
         _exit(127);
     }
     if (close(fd_pair[1]) < 0) {
-        log_err(errno, "close() of parent fd_pair failed");
+        log_msg(LOG_WARNING, "close() of parent fd_pair failed: %s",
+            strerror(errno));
     }
     if (time(&(auxp->tStart)) == (time_t) -1) {
         log_err(errno, "time() failed");
-- 
2.43.0


From 7a47984b72d260310ee1081c54774d604c49bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:09 +0000
Subject: [PATCH 08/23] fix: leave a forked console child with _exit() when its
 setup fails

The child of a threaded process may call only async-signal-safe functions
before exec; log_err() formats, locks, allocates and runs exit handlers.
---
 src/server-process.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/server-process.c b/src/server-process.c
index 85ac368..df88052 100644
--- a/src/server-process.c
+++ b/src/server-process.c
@@ -332,17 +332,11 @@ static int connect_process_obj(obj_t *process)
         goto err;
     }
     else if (pid == 0) {
-        if (close(fd_pair[0]) < 0) {
-            log_err(errno, "close() of child fd_pair failed");
-        }
-        if (dup2(fd_pair[1], STDIN_FILENO) < 0) {
-            log_err(errno, "dup2() of child stdin failed");
-        }
-        if (dup2(fd_pair[1], STDOUT_FILENO) < 0) {
-            log_err(errno, "dup2() of child stdout failed");
-        }
-        if (dup2(fd_pair[1], STDERR_FILENO) < 0) {
-            log_err(errno, "dup2() of child stderr failed");
+        (void) close(fd_pair[0]);
+        if ((dup2(fd_pair[1], STDIN_FILENO) < 0)
+                || (dup2(fd_pair[1], STDOUT_FILENO) < 0)
+                || (dup2(fd_pair[1], STDERR_FILENO) < 0)) {
+            _exit(127);
         }
         execv(auxp->argv[0], auxp->argv);
         _exit(127);
-- 
2.43.0


From 8db102dab56b75b4d9a8272817ad54261867828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:18 +0000
Subject: [PATCH 09/23] fix: declare strerror() where destroy_req() uses it

---
 src/common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common.c b/src/common.c
index 3edb912..3a6a63e 100644
--- a/src/common.c
+++ b/src/common.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <stdlib.h>
+#include <string.h>
 #include <termios.h>
 #include <unistd.h>
 #include "common.h"
-- 
2.43.0


From cad92dbe5d3ec6ca450b33b94a6d361ce009c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 10/23] fix: preserve errno in the SIGCHLD handler

waitpid() always ends with ECHILD (or leaves 0 behind); a handler that runs
between a failed read() and the test of its errno made the daemon take EAGAIN
for a hard error and shut the console down.
---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index 917ddc2..3ac74b5 100644
--- a/src/server.c
+++ b/src/server.c
@@ -373,8 +373,10 @@ static void setup_signals(server_conf_t *conf)
 static void sig_chld_handler(int signum)
 {
     pid_t pid;
+    int errno_bak = errno;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = errno_bak;
     return;
 }
 
-- 
2.43.0


From 1d736da418280d4fa8ab3a4794ecf41ce201de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 11/23] fix: disconnect a client that lost its last link while
 its buffer was empty

---
 src/server-obj.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 3a91896..0446a43 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -720,16 +720,23 @@ void unlink_objs(obj_t *src, obj_t *dst)
     /*  If a client obj has become completely unlinked, set its EOF flag.
      *    This will prevent new data from being added to the obj's buffer,
      *    and the obj will be closed once its buffer is empty.
+     *  Notify tpoll in case its buffer is already empty (eg, if the client
+     *    is suppressing informational messages); o/w, a client that is
+     *    suspended will be closed after it resumes.
      */
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
         src->gotEOF = 1;
+        if ((src->fd >= 0) && !src->aux.client.gotSuspend)
+            tpoll_set(tp_global, src->fd, POLLOUT);
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
         dst->gotEOF = 1;
+        if ((dst->fd >= 0) && !dst->aux.client.gotSuspend)
+            tpoll_set(tp_global, dst->fd, POLLOUT);
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
-- 
2.43.0


From 617c8a15659540221b94f3e15f28011f9b2d0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 12/23] fix: do not let the monitor escape turn a read-only
 session into a writer

---
 src/server-esc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..3e2bd2e 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -251,7 +251,8 @@ static void perform_console_writer_linkage(obj_t *client)
         client->aux.client.req->command = CONMAN_CMD_MONITOR;
         unlink_objs(client, console);
     }
-    else {
+    else if (client->aux.client.req->enableForce
+            || client->aux.client.req->enableJoin) {
         client->aux.client.req->command = CONMAN_CMD_CONNECT;
         link_objs(client, console);
     }
-- 
2.43.0


From 875c687327bdcb838e99b32f72817626bd9b4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 13/23] fix: ignore linkage escapes from a client that has been
 unlinked

---
 src/server-esc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index 3e2bd2e..15a0158 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -234,6 +234,11 @@ static void perform_console_writer_linkage(obj_t *client)
      */
     if (client->aux.client.req->enableBroadcast)
         return;
+    /*  A client that has been unlinked (eg, its console has been stolen)
+     *    no longer has a console but may still be sending data.
+     */
+    if (list_is_empty(client->writers))
+        return;
     assert(list_count(client->readers) <= 1);
 
     /*  A R/O or R/W client will have exactly one console writer.
-- 
2.43.0


From 8d7c755ccb82f4fb4c7ee91fda6a6eac32612f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 14/23] fix: remove a client that disconnects while its output
 is suspended

---
 src/server-obj.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 0446a43..e303cc2 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -930,6 +930,12 @@ again:
         x_pthread_mutex_lock(&obj->bufLock);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
         x_pthread_mutex_unlock(&obj->bufLock);
+        /*  A client that disconnects while suspended can no longer resume,
+         *    so its buffer would never be drained.
+         */
+        if (is_client_obj(obj) && obj->aux.client.gotSuspend) {
+            return(shutdown_obj(obj));
+        }
         return(isEmpty ? shutdown_obj(obj) : 0);
     }
     else {
-- 
2.43.0


From afc4a9511291ca75a04268f4c0ecc74e780156da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 15/23] fix: keep the daemon logfile locked when it is reopened

---
 src/server.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server.c b/src/server.c
index 3ac74b5..b03034e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -909,6 +909,16 @@ static void open_daemon_logfile(server_conf_t *conf)
             log_msg(LOG_WARNING, "Unable to close daemon logfile \"%s\"",
                 conf->logFileName);
         }
+        conf->logFilePtr = NULL;
+        /*
+         *  If both streams refer to the same file, closing the old one
+         *    has released the lock, so it must be obtained again.
+         */
+        if (get_write_lock(fd) < 0) {
+            log_msg(LOG_WARNING, "Unable to lock daemon logfile \"%s\"",
+                conf->logFileName);
+            goto err;
+        }
     }
     conf->logFilePtr = fp;
     DPRINTF((9, "Opened logfile \"%s\": fd=%d.\n", conf->logFileName, fd));
-- 
2.43.0


From 7cb2ce0bfc3b9502ee4acae0849327df07179f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:37 +0000
Subject: [PATCH 16/23] fix: forget an unfinished telnet command when the
 connection is re-established

---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 3ba5d5b..847fd57 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -272,6 +272,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->name, telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From 489deddd76eb1dd9d3c14d7b26622d51311e88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 17/23] fix: format the open file limit and the maximum
 directory length with their own width

---
 src/server.c    | 7 ++++---
 src/util-file.c | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index b03034e..1e3ab8b 100644
--- a/src/server.c
+++ b/src/server.c
@@ -710,11 +710,12 @@ static void setup_nofile_limit(server_conf_t *conf)
 
     if (conf->numOpenFiles) {
         if (setrlimit(RLIMIT_NOFILE, &limit) < 0) {
-            log_err(errno, "Unable to set open file limit to %d",
-                    limit.rlim_cur);
+            log_err(errno, "Unable to set open file limit to %lu",
+                    (unsigned long) limit.rlim_cur);
         }
     }
-    log_msg(LOG_INFO, "Open file limit set to %d", limit.rlim_cur);
+    log_msg(LOG_INFO, "Open file limit set to %lu",
+        (unsigned long) limit.rlim_cur);
     return;
 }
 
diff --git a/src/util-file.c b/src/util-file.c
index c88903e..b10a1b4 100644
--- a/src/util-file.c
+++ b/src/util-file.c
@@ -331,8 +331,8 @@ create_dirs (const char *dir_name)
      */
     if (strlcpy (dir_buf, dir_name, sizeof (dir_buf)) >= sizeof (dir_buf)) {
         errno = ENAMETOOLONG;
-        log_msg (LOG_WARNING, "Exceeded maximum directory length of %d bytes",
-                sizeof (dir_buf) - 1);
+        log_msg (LOG_WARNING, "Exceeded maximum directory length of %lu bytes",
+                (unsigned long) sizeof (dir_buf) - 1);
         return (-1);
     }
     /*  Remove trailing slashes from the directory name
-- 
2.43.0


From 78c75ba97b1fd3e90d47ca17ece9a97639cc349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:29 +0000
Subject: [PATCH 18/23] fix: compare the expanded names of logfiles when
 looking for duplicates

---
 src/server-logfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..433ddb6 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -155,7 +155,7 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         }
         return(NULL);
     }
-    logfile = create_obj(conf, name, -1, CONMAN_OBJ_LOGFILE);
+    logfile = create_obj(conf, pname, -1, CONMAN_OBJ_LOGFILE);
     logfile->aux.logfile.console = console;
     logfile->aux.logfile.lineState = CONMAN_LOG_LINE_INIT;
     logfile->aux.logfile.opts = *opts;
-- 
2.43.0


From 5639ca4480dda989a5d561817d55eef35e9aca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 19/23] fix: do not take an unidentifiable lock owner for a
 process id

---
 src/server-conf.c | 6 +++---
 src/util-file.c   | 6 +++++-
 src/util-file.h   | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..b235c83 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -410,7 +410,7 @@ void process_config(server_conf_t *conf)
         log_err(0, "Unable to lock configuration \"%s\"",
             conf->confFileName);
     }
-    if ((pid = is_write_lock_blocked(conf->fd)) > 0) {
+    if ((pid = is_write_lock_blocked(conf->fd)) != 0) {
         log_err(0, "Configuration \"%s\" in use by pid %d",
             conf->confFileName, pid);
     }
@@ -524,8 +524,8 @@ static void signal_daemon(server_conf_t *conf)
      *  the config file.  Note that the pid file does not support conversion
      *  specifiers in order to reduce the likelihood of this happening.
      */
-    if ( !(pid = is_write_lock_blocked(conf->fd))
-      && !(pid = read_pidfile(conf->pidFileName)) ) {
+    if ( ((pid = is_write_lock_blocked(conf->fd)) <= 0)
+      && ((pid = read_pidfile(conf->pidFileName)) <= 0) ) {
         log_err(0, "Configuration \"%s\" does not appear to be active",
             conf->confFileName);
     }
diff --git a/src/util-file.c b/src/util-file.c
index b10a1b4..864fa84 100644
--- a/src/util-file.c
+++ b/src/util-file.c
@@ -154,7 +154,11 @@ static pid_t test_file_lock(int fd, int type)
         log_err(errno, "Unable to test for file lock");
     if (lock.l_type == F_UNLCK)
         return(0);
-    return(lock.l_pid);
+    /*
+     *  The owner of an open-file-description lock or of a lock held on
+     *    another host cannot be identified, and is not a valid pid here.
+     */
+    return((lock.l_pid > 0) ? lock.l_pid : -1);
 }
 
 
diff --git a/src/util-file.h b/src/util-file.h
index a4cdf97..078b767 100644
--- a/src/util-file.h
+++ b/src/util-file.h
@@ -84,14 +84,16 @@ pid_t is_read_lock_blocked(int fd);
 /*
  *  If a lock exists the would block a request for a read-lock
  *    (ie, if a write-lock is already being held on the file),
- *    returns the pid of the process holding the lock; o/w, returns 0.
+ *    returns the pid of the process holding the lock (or -1 if that
+ *    process cannot be identified); o/w, returns 0.
  */
 
 pid_t is_write_lock_blocked(int fd);
 /*
  *  If a lock exists the would block a request for a write-lock
  *    (ie, if any lock is already being held on the file),
- *    returns the pid of a process holding the lock; o/w, returns 0.
+ *    returns the pid of a process holding the lock (or -1 if that
+ *    process cannot be identified); o/w, returns 0.
  */
 
 ssize_t read_n(int fd, void *buf, size_t n);
-- 
2.43.0


From 5d6803db05cc6808c889d74c94c1e4382b6d68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 20/23] fix: restore the terminal when the client exits due to
 an error

---
 src/client-tty.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..10ce6e7 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -44,6 +44,7 @@
 
 
 static void exit_handler(int signum);
+static void restore_tty(void);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
 static int send_esc_seq(client_conf_t *conf, char c);
@@ -65,6 +66,7 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 
 static int done = 0;
+static struct termios saved_tty;        /* tty mode to be restored on exit */
 
 
 void connect_console(client_conf_t *conf)
@@ -100,6 +102,9 @@ void connect_console(client_conf_t *conf)
     posix_signal(SIGTSTP, SIG_DFL);
 
     get_tty_mode(&conf->tty, STDIN_FILENO);
+    saved_tty = conf->tty;
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
     get_tty_raw(&tty, STDIN_FILENO);
     set_tty_mode(&tty, STDIN_FILENO);
 
@@ -152,6 +157,16 @@ static void exit_handler(int signum)
 }
 
 
+static void restore_tty(void)
+{
+/*  Restores the terminal in case the client exits due to an error.
+ *  Errors are ignored here since this is called while exiting.
+ */
+    (void) tcsetattr(STDIN_FILENO, TCSANOW, &saved_tty);
+    return;
+}
+
+
 static int read_from_stdin(client_conf_t *conf)
 {
 /*  Reads from stdin and writes to the socket connection.
-- 
2.43.0


From c25bd994f5aa133d39cce4a468d5721467189747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:23 +0000
Subject: [PATCH 21/23] fix: recognize escape characters above 127

read_from_stdin() held the escape character in a plain char while comparing it
against unsigned input, so an escape character >= 0x80 was never recognized.
---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 10ce6e7..50d90c3 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -177,7 +177,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From d201574fade74284a3e1edcdba2809dbd49a011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:07 +0000
Subject: [PATCH 22/23] fix: forget the buffer's wrap-around when it is flushed

When an object was shut down, its buffer was restarted from the beginning but
kept being marked as wrapped around.  A log replay after a log file had failed
and been re-opened thus showed stale bytes from the end of the buffer as if
they were the newest ones.
---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index e303cc2..9ad7554 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -842,6 +842,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From b02d4f0e2bdf0ac68777a1f6f18827a2869cb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:26 +0000
Subject: [PATCH 23/23] fix: a SIGHUP received while the logfiles are reopened
 is no longer lost

mux_io() cleared the reconfig flag after reopening the logfiles, so a
SIGHUP that arrived during the reopening was forgotten.  Clear it first,
and test it again before waiting for the next event.
---
 src/server.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 1e3ab8b..bed890d 100644
--- a/src/server.c
+++ b/src/server.c
@@ -759,6 +759,7 @@ static void mux_io(server_conf_t *conf)
     obj_t *obj;
     int inevent_fd;
     int rvr, rvw;
+    int signum;
 
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
@@ -775,10 +776,15 @@ static void mux_io(server_conf_t *conf)
             /*
              *  FIXME: A reconfig should pro'ly resurrect "downed" serial objs
              *    and reset reconnect timers of "downed" telnet objs.
+             *  The flag is cleared first, and tested again afterwards, since a
+             *    signal that is received while the logfiles are being reopened
+             *    requests yet another reopen.
              */
-            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
-            reopen_logfiles(conf);
+            signum = reconfig;
             reconfig = 0;
+            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", signum);
+            reopen_logfiles(conf);
+            continue;
         }
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
-- 
2.43.0

