From 217e6a52d5f8dde4aeea558091da7c4137674e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 01/45] fix: continuation frames of an outgoing fragmented
 message carry opcode 0

---
 src/frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..0f2f669 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -534,7 +534,8 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        // Only the first frame of a fragmented message carries the opcode
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From f1d8a41d6e710b5a417a5db9c0fcc3f4608c551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 02/45] fix: a payload length near 2^64 does not wrap the frame
 parser's offset

---
 src/frame.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 0f2f669..fdacced 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -317,15 +317,22 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The announced length is chosen by the peer and must not wrap the offset
+        if ( unlikely(frame->applicationDataLength > SIZE_MAX-*offset) ) {
+            *offset = SIZE_MAX;
+        } else {
+            *offset += frame->applicationDataLength;
+        }
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From 14255a144c48754071b9dadd5ebf4c4431fb677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 03/45] fix: outgoing close frames do not read past the message
 and fit a control frame

---
 src/frame.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index fdacced..3953b4f 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -102,6 +102,12 @@ static inline uint16_t htons16(uint16_t value) {
 	}
 }
 
+/**
+ * The payload of a control frame is at most 125 bytes, of which a closing
+ * frame uses two for the status code.
+ */
+#define MAX_CLOSE_REASON 123
+
 static void unmask(wss_frame_t *frame) {
     char *applicationData = frame->payload+frame->extensionDataLength;
     uint64_t i = 0;
@@ -523,7 +529,30 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        // The message is not necessarily zero terminated
+        char reason[MAX_CLOSE_REASON+1];
+        size_t reason_length = MIN(message_length-(size_t)(msg-message), sizeof(reason));
+        memset(reason, '\0', sizeof(reason));
+        if ( likely(reason_length > 0) ) {
+            memcpy(reason, msg, MIN(reason_length, MAX_CLOSE_REASON));
+
+            // Do not cut a code point of the UTF-8 encoded reason in half
+            if ( unlikely(reason_length > MAX_CLOSE_REASON && (msg[MAX_CLOSE_REASON] & 0xC0) == 0x80) ) {
+                for (i = MAX_CLOSE_REASON; i > 0 && (reason[i-1] & 0xC0) == 0x80; i--) {
+                    reason[i-1] = '\0';
+                }
+                if ( likely(i > 0) ) {
+                    reason[i-1] = '\0';
+                }
+            }
+        }
+
+        frame = WSS_closing_frame(code, NULL == msg ? NULL : reason);
+        if ( unlikely(NULL == frame) ) {
+            WSS_free((void **)&frames);
+            *fs = NULL;
+            return 0;
+        }
         frames[0] = frame;
         return 1;
     }
-- 
2.43.0


From 5b8e7aad8ee993729ed8d1ca1d70689167a251fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 04/45] fix: name of the Cython initialiser overflows its
 buffer when loading a plug-in

---
 src/extensions.c   | 4 ++--
 src/subprotocols.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..8fd510c 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,8 +140,8 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name);
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..3d3b3df 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,8 +130,8 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name);
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
-- 
2.43.0


From 0b84939e4376c9a7eac5438a8524e7f0884c020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 05/45] fix: exit status of the server threads written past its
 variable, http thread joined twice

---
 src/server.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/server.c b/src/server.c
index 0cdca9d..59de5c6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -254,7 +254,7 @@ void *WSS_cleanup() {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
 #endif
-                pthread_exit( ((void *) &err) );
+                pthread_exit( ((void *) ((uintptr_t)err)) );
             }
         }
     }
@@ -295,7 +295,7 @@ void *WSS_server_run(void *arg) {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
-            pthread_exit( ((void *) err) );
+            pthread_exit( ((void *) ((uintptr_t)err)) );
         }
     }
 
@@ -383,6 +383,7 @@ static int WSS_server_free(wss_server_t *server) {
  */
 int WSS_server_start(wss_config_t *config) {
     int err;
+    void *res;
     struct rlimit limits;
     struct sigaction sa;
     int ret = EXIT_SUCCESS;
@@ -611,7 +612,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Joining server threads");
 
-    pthread_join(cleanup_thread_id, (void **) &err);
+    pthread_join(cleanup_thread_id, &res);
+    err = (int)(uintptr_t)res;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -619,7 +621,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Cleanup thread has shutdown");
 
-    pthread_join(http->thread_id, (void **) &err);
+    pthread_join(http->thread_id, &res);
+    err = (int)(uintptr_t)res;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -628,7 +631,8 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("HTTP server thread has shutdown");
 
     if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
+        pthread_join(https->thread_id, &res);
+        err = (int)(uintptr_t)res;
         if ( unlikely(WSS_SUCCESS != err) ) {
             WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
             WSS_server_set_state(HALT_ERROR);
@@ -637,8 +641,6 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    pthread_join(http->thread_id, (void **) &err);
-
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From c0dce506bb18e324dd7df166531cfa8d5b994f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 06/45] fix: sessions are not freed while in use, and their
 messages are written in order by one thread at a time

---
 include/message.h |   3 +
 include/session.h |  25 +++++
 include/worker.h  |  11 +++
 src/message.c     | 139 ++++++++++++++++++---------
 src/server.c      | 125 ++++++------------------
 src/session.c     |  85 ++++++++++++++++-
 src/ssl.c         |  36 +++----
 src/worker.c      | 235 ++++++++++++++++++++++++++++------------------
 8 files changed, 397 insertions(+), 262 deletions(-)

diff --git a/include/message.h b/include/message.h
index 1eada2b..50328ec 100644
--- a/include/message.h
+++ b/include/message.h
@@ -7,6 +7,7 @@
 
 #include "subprotocol.h"
 #include "extension.h"
+#include "error.h"
 
 /**
  * Structure containing a message that should be sent to a client
@@ -17,6 +18,8 @@ typedef struct {
     bool framed;
 } wss_message_t;
 
+wss_error_t WSS_message_put(void *session, wss_message_t *message);
+
 void WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length);
diff --git a/include/session.h b/include/session.h
index 3055e46..7fb06b1 100644
--- a/include/session.h
+++ b/include/session.h
@@ -65,6 +65,12 @@ typedef struct {
     int jobs;
     // Lock that ensures jobs are incremented/decremented atomically
     pthread_mutex_t lock_jobs;
+    // Lock that ensures only one thread puts messages into the ringbuffer at a time
+    pthread_mutex_t lock_send;
+    // Whether messages were put into the ringbuffer since it was last written
+    bool flush;
+    // Whether the thread holding the lock is handling an event of the session
+    bool working;
     // Conditional variable that ensures that close call is only performed when no other IO is waiting
     pthread_cond_t cond_jobs;
     // Which state the session is currently in
@@ -159,6 +165,25 @@ wss_error_t WSS_session_delete_all();
  */
 wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
 
+/**
+ * Function that increments the job counter of a session, unless the session is
+ * about to be deleted. The session stays allocated until the job is finished
+ * by WSS_session_jobs_dec. To be called while the session cannot be deleted.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @return            [bool]             "Whether the session can be used"
+ */
+bool WSS_session_hold(wss_session_t *session);
+
+/**
+ * Function that finds a session using the filedescriptor of the session, and
+ * increments its job counter such that it is not deleted while being used.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd);
+
 /**
  * Function that finds a session using the filedescriptor of the session.
  *
diff --git a/include/worker.h b/include/worker.h
index 8443cfd..601c3aa 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -81,6 +81,17 @@ typedef struct {
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session);
 
+/**
+ * Function that lets go of the lock of a session. Messages that other threads
+ * have put into the ringbuffer in the meantime are written, and the event that
+ * the session awaits is armed.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [bool]              "Whether the session should be disconnected"
+ */
+bool WSS_session_release(wss_server_t *server, wss_session_t *session);
+
 /**
  * Function that handles new connections. This function creates a new session and
  * associates the sessions filedescriptor to the epoll instance such that we can
diff --git a/src/message.c b/src/message.c
index 6e45c1d..4938d45 100644
--- a/src/message.c
+++ b/src/message.c
@@ -10,19 +10,87 @@
 #include "error.h"
 #include "predict.h"
 
-#include <time.h>
+#include <sys/socket.h>
+
+/**
+ * Function that puts a message into the ringbuffer of the session.
+ *
+ * @param   session     [wss_session_t *]   "The session to receive the message"
+ * @param   message     [wss_message_t *]   "The message, which is freed upon failure"
+ * @return              [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_message_put(void *sess, wss_message_t *message) {
+    ssize_t off;
+    ringbuf_worker_t *w = NULL;
+    wss_session_t *session = (wss_session_t *)sess;
+
+    WSS_log_trace("Putting message into ringbuffer");
+
+    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
+        WSS_log_error("Failed to acquire space in ringbuffer");
+
+        WSS_message_free(message);
+
+        return WSS_RINGBUFFER_ERROR;
+    }
+
+    session->messages[off] = message;
+    ringbuf_produce(session->ringbuf, &w);
+    session->flush = true;
+
+    return WSS_SUCCESS;
+}
+
+/**
+ * Function that writes the messages of the ringbuffer unless another thread
+ * holds the session. In that case the other thread writes the messages before
+ * letting go of the session.
+ *
+ * @param   server      [wss_server_t *]    "The server structure"
+ * @param   session     [wss_session_t *]   "The session"
+ * @return              [void]
+ */
+static void flush(wss_server_t *server, wss_session_t *session) {
+    if ( 0 != pthread_mutex_trylock(&session->lock) ) {
+        return;
+    }
+
+    // Messages are written once the session is writable again
+    if ( WRITING != session->state && ! session->closing ) {
+        if ( session->working ) {
+            WSS_write(server, session);
+        } else {
+            session->event = NONE;
+            WSS_write(server, session);
+            WSS_session_release(server, session);
+            return;
+        }
+    }
+
+    pthread_mutex_unlock(&session->lock);
+}
 
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
-    ssize_t off;
     char *out;
     uint64_t out_length;
     wss_message_t *m;
-    ringbuf_worker_t *w = NULL;
-    struct timespec tim;
+    wss_error_t err;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // Messages must be written in the order they were given to the extensions
+    pthread_mutex_lock(&session->lock_send);
+
+    if ( unlikely(! session->handshaked) ) {
+        WSS_log_error("Session is not ready to receive messages");
+
+        pthread_mutex_unlock(&session->lock_send);
+        WSS_session_jobs_dec(session);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -40,6 +108,9 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        pthread_mutex_unlock(&session->lock_send);
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -48,55 +119,28 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        pthread_mutex_unlock(&session->lock_send);
+        WSS_session_jobs_dec(session);
+
         return;
     }
     m->msg = out;
     m->length = out_length;
     m->framed = true;
 
-    WSS_log_trace("Putting message into ringbuffer");
+    err = WSS_message_put(session, m);
 
-    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
-        WSS_log_error("Failed to acquire space in ringbuffer");
-
-        WSS_message_free(m);
+    pthread_mutex_unlock(&session->lock_send);
 
-        return;
+    if ( unlikely(WSS_SUCCESS != err) ) {
+        // The session would silently miss a message, hence it is disconnected
+        session->closing = true;
+        shutdown(session->fd, SHUT_RDWR);
+    } else {
+        flush(server, session);
     }
 
-    session->messages[off] = m;
-    ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        }
-    } while (1);
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -106,13 +150,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
@@ -120,6 +162,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     WSS_log_trace("Creating frames");
 
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
+    if ( unlikely(0 == frames_count) ) {
+        WSS_log_error("Unable to create frames of message");
+        WSS_session_jobs_dec(session);
+        return;
+    }
 
     WSS_message_send_frames(server, session, frames, frames_count);
 
diff --git a/src/server.c b/src/server.c
index 59de5c6..88632b7 100644
--- a/src/server.c
+++ b/src/server.c
@@ -39,63 +39,12 @@ wss_servers_t servers;
  */
 struct timespec now;
 
-static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
-    size_t j;
-    char *message;
-    size_t message_length;
-    int n = 0;
-    int fd = session->fd;
-
-    // Use extensions
-    for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
-        session->header->ws_extensions[j]->ext->outframes(
-                fd,
-                &frame,
-                1);
-
-        session->header->ws_extensions[j]->ext->outframe(
-                fd,
-                frame);
-    }
-
-    if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
-        WSS_log_fatal("Unable to represent frame as bytes");
-        WSS_free_frame(frame);
-        return;
-    }
-
-    WSS_free_frame(frame);
-
-    if (session->ssl_connected) {
-        WSS_ssl_write(session, message, message_length);
-    } else {
-        size_t written = 0;
-        do {
-            n = write(fd, message+written, message_length-written);
-            if ( unlikely(n < 0) ) {
-                if ( likely(errno == EINTR) ) {
-                    errno = 0;
-                    n = 0;
-                    continue;
-                }
-                break;
-            }
-            written += n;
-        } while ( written < message_length );
-    }
-
-    WSS_free((void **) &message);
-}
-
 static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
     wss_frame_t *frame;
     long unsigned int ms;
-    int fd = session->fd;
     wss_server_t *server = servers.http;
-    bool dc;
 
-    if (! session->handshaked) {
+    if (! session->handshaked || session->closing) {
         return;
     }
 
@@ -109,65 +58,41 @@ static void cleanup_session(wss_session_t *session) {
 
     // Session timed out
     if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
-        WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
+        WSS_log_info("Session %d has timedout last active %d ms ago", session->fd, ms);
 
-        session->closing = true;
-        session->state = CLOSING;
-
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
+        if ( unlikely(NULL == (frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL))) ) {
+            return;
         }
 
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
-
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
+        if ( unlikely(! WSS_session_hold(session)) ) {
+            WSS_free_frame(frame);
+            return;
         }
 
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
+        // The session disconnects once the close frame is written
+        WSS_log_trace("Sending close frame to session %d", session->fd);
 
-        WSS_poll_remove(server, fd);
+        WSS_message_send_frames(server, session, &frame, 1);
 
-        WSS_log_trace("Sending close frame", fd);
-
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
-
-        write_control_frame(frame, session);
-
-        WSS_log_trace("Deleting client session");
+        WSS_free_frame(frame);
 
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
+        // The client does not read what it is sent
+        if ( pthread_mutex_trylock(&session->lock) == 0 ) {
+            if ( unlikely(session->state == WRITING) ) {
+                session->closing = true;
+                shutdown(session->fd, SHUT_RDWR);
             }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
+            pthread_mutex_unlock(&session->lock);
         }
 
-        WSS_log_info("Client with session %d disconnected", fd);
-
     // Ping session to keep it alive
     } else if (server->config->timeout_pings > 0 ) {
-        WSS_log_info("Pinging session %d", fd);
+        WSS_log_info("Pinging session %d", session->fd);
+
+        if ( unlikely(NULL == (frame = WSS_ping_frame())) ) {
+            return;
+        }
 
-        frame = WSS_ping_frame();
         if (session->pong != NULL) {
             WSS_free((void **) &session->pong);
             session->pong_length = 0;
@@ -181,7 +106,11 @@ static void cleanup_session(wss_session_t *session) {
 
         memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
 
-        write_control_frame(frame, session);
+        if ( likely(WSS_session_hold(session)) ) {
+            WSS_message_send_frames(server, session, &frame, 1);
+        }
+
+        WSS_free_frame(frame);
     }
 }
 
diff --git a/src/session.c b/src/session.c
index d3a1039..546a4c4 100644
--- a/src/session.c
+++ b/src/session.c
@@ -69,12 +69,14 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     WSS_log_trace("Adding session");
 
-    if ( unlikely(NULL != (session = WSS_session_find(fd))) ) {
+    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return NULL;
     }
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+    HASH_FIND_INT(sessions, &fd, session);
+    if ( unlikely(NULL != session) ) {
+        pthread_rwlock_unlock(&lock);
         return NULL;
     }
 
@@ -89,6 +91,8 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
@@ -118,6 +122,17 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_mutex_init(&session->lock_send, NULL)) != 0) ) {
+        WSS_log_error("Unable to initialize session send lock: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
@@ -128,6 +143,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
         pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutex_destroy(&session->lock_send);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
         pthread_rwlock_unlock(&lock);
@@ -165,6 +181,10 @@ static wss_error_t session_delete(wss_session_t *session) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_mutex_destroy(&session->lock_send)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         WSS_log_trace("Free ip string");
         WSS_free((void **) &session->ip);
 
@@ -176,7 +196,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
@@ -186,7 +206,10 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            // Otherwise the subprotocol was informed upon disconnecting
+            if ( ! session->disconnecting && NULL != session->header->ws_protocol ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
@@ -398,6 +421,30 @@ wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc) {
     return err;
 }
 
+/**
+ * Function that increments the job counter of a session, unless the session is
+ * about to be deleted. The session stays allocated until the job is finished
+ * by WSS_session_jobs_dec. To be called while the session cannot be deleted.
+ *
+ * @param   session   [wss_session_t *]  "The session"
+ * @return            [bool]             "Whether the session can be used"
+ */
+bool WSS_session_hold(wss_session_t *session) {
+    bool dc;
+
+    WSS_session_jobs_inc(session);
+
+    pthread_mutex_lock(&session->lock_disconnecting);
+    dc = session->disconnecting;
+    pthread_mutex_unlock(&session->lock_disconnecting);
+
+    if ( unlikely(dc) ) {
+        WSS_session_jobs_dec(session);
+    }
+
+    return ! dc;
+}
+
 /**
  * Function that finds all sessions and calls callback for each of them.
  *
@@ -449,3 +496,31 @@ wss_session_t *WSS_session_find(int fd) {
 
     return session;
 }
+
+/**
+ * Function that finds a session using the filedescriptor of the session, and
+ * increments its job counter such that it is not deleted while being used.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd) {
+    int err;
+    wss_session_t *session = NULL;
+
+    WSS_log_trace("Acquiring session");
+
+    if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+        return NULL;
+    }
+
+    HASH_FIND_INT(sessions, &fd, session);
+    if ( unlikely(NULL != session && ! WSS_session_hold(session)) ) {
+        session = NULL;
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    return session;
+}
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..00bebf8 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -453,7 +453,7 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         return false;
     }
 
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -535,9 +535,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_READ) ) {
         WSS_log_trace("Need to wait for further reads");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_read(server, session->fd);
+        session->event = READ;
 
         return;
     }
@@ -546,9 +544,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_WRITE) ) {
         WSS_log_trace("Need to wait for further writes");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_write(server, session->fd);
+        session->event = WRITE;
 
         return;
     }
@@ -569,7 +565,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
         return;
     }
 
@@ -581,9 +577,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
 
     session->state = IDLE;
 
-    clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-    WSS_poll_set_read(server, session->fd);
+    session->event = READ;
 #endif
 }
 
@@ -602,7 +596,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -610,7 +604,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -625,7 +619,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -633,7 +627,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -662,11 +656,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is being deleted, hence the peer is not awaited
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +683,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The session is being deleted, hence the peer is not awaited
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index e98b6ac..3f7f515 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -7,6 +7,11 @@
 #include <math.h> 				/* log10 */
 #include <time.h>
 #include <locale.h>
+#include <poll.h>               /* poll */
+
+#ifndef POLLRDHUP
+#define POLLRDHUP  0x2000
+#endif
 
 #include <sys/types.h>          /* socket, setsockopt, accept, send, recv */
 #include <sys/stat.h> 			/* stat */
@@ -392,19 +397,23 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The calling thread must be one of the jobs of the session, which
+ * is finished hereby, and it must not hold the lock of the session.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
-    // If we are already closing
+    // From now on no other thread is able to acquire the session
     WSS_session_is_disconnecting(session, &dc);
+
+    WSS_session_jobs_dec(session);
+
+    // If we are already closing
     if (dc) {
         return;
     }
@@ -415,7 +424,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
 
-    if ( NULL != session->header && session->header->ws_protocol != NULL ) {
+    if ( session->handshaked && NULL != session->header && session->header->ws_protocol != NULL ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
     }
@@ -432,24 +441,65 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
+    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
+        WSS_log_error("Unable to delete client session, received error code: %d", err);
     }
+}
 
-    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
+/**
+ * Function that lets go of the lock of a session. Messages that other threads
+ * have put into the ringbuffer in the meantime are written, and the event that
+ * the session awaits is armed.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [bool]              "Whether the session should be disconnected"
+ */
+bool WSS_session_release(wss_server_t *server, wss_session_t *session) {
+    bool closing;
+
+    while (1) {
+        pthread_mutex_lock(&session->lock_send);
+
+        if ( session->closing || session->state == WRITING || ! session->flush ) {
+            break;
+        }
+
+        session->flush = false;
+
+        pthread_mutex_unlock(&session->lock_send);
+
+        WSS_write(server, session);
+    }
+
+    closing = session->closing;
+
+    if ( unlikely(closing) ) {
+        if ( ! session->working ) {
+            // Wakes up a thread that is able to disconnect the session
+            shutdown(session->fd, session->state == WRITING ? SHUT_RDWR : SHUT_RD);
+        }
+    } else {
+        switch (session->event) {
+            case WRITE:
+                clock_gettime(CLOCK_MONOTONIC, &session->alive);
+                WSS_poll_set_write(server, session->fd);
+                break;
+            case READ:
+                clock_gettime(CLOCK_MONOTONIC, &session->alive);
+                WSS_poll_set_read(server, session->fd);
+                break;
+            case NONE:
                 break;
         }
-        WSS_log_error("Unable to delete client session, received error code: %d", err);
-        return;
     }
+
+    session->working = false;
+
+    pthread_mutex_unlock(&session->lock);
+    pthread_mutex_unlock(&session->lock_send);
+
+    return closing;
 }
 
 /**
@@ -463,23 +513,29 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
     size_t workers = server->config->pool_workers+1;
 
-    client_size	= sizeof(client);
-    memset((char *) &client, '\0', sizeof(client));
-
     while (1) {
+        client_size	= sizeof(client);
+        memset((char *) &client, '\0', sizeof(client));
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
                 break;
             }
 
+            // The connection is gone already, others might be waiting
+            if ( EINTR == errno || ECONNABORTED == errno ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
@@ -490,14 +546,24 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
+        // The socket is dual stack, hence IPv4 addresses are mapped to IPv6
+        memset(ip, '\0', sizeof(ip));
+        if ( IN6_IS_ADDR_V4MAPPED(&client.sin6_addr) ) {
+            inet_ntop(AF_INET, client.sin6_addr.s6_addr+12, ip, sizeof(ip));
+        } else {
+            inet_ntop(AF_INET6, &client.sin6_addr, ip, sizeof(ip));
+        }
+
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+                        ip, ntohs(client.sin6_port)))) ) {
+            close(client_fd);
             continue;
         }
 
         WSS_session_jobs_inc(session);
         pthread_mutex_lock(&session->lock);
 
+        session->working = true;
         session->state = CONNECTING;
         WSS_log_trace("Created client session: %d", client_fd);
 
@@ -505,6 +571,7 @@ void WSS_connect(wss_server_t *server) {
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -512,6 +579,7 @@ void WSS_connect(wss_server_t *server) {
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -527,25 +595,21 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+            if ( likely(WSS_session_ssl(server, session)) ) {
+                WSS_ssl_handshake(server, session);
             }
-
-            WSS_ssl_handshake(server, session);
         } else {
             session->state = IDLE;
-
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-            WSS_poll_set_read(server, session->fd);
+            session->event = READ;
 
             WSS_log_info("Client with session %d connected", session->fd);
-
         }
 
-        WSS_session_jobs_dec(session);
-        pthread_mutex_unlock(&session->lock);
+        if ( unlikely(WSS_session_release(server, session)) ) {
+            WSS_disconnect(server, session);
+        } else {
+            WSS_session_jobs_dec(session);
+        }
     }
 }
 
@@ -557,23 +621,13 @@ void WSS_connect(wss_server_t *server) {
  * @return              [void]
  */
 static wss_error_t write_internal(wss_session_t *session, wss_message_t *mes) {
-    ssize_t off;
-    ringbuf_worker_t *w = NULL;
-
-    WSS_log_trace("Putting message into ringbuffer");
-
-    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
-        WSS_free((void **) &mes->msg);
-        WSS_free((void **) &mes);
-
-        WSS_log_error("Failed to acquire space in ringbuffer");
+    wss_error_t err;
 
-        return WSS_RINGBUFFER_ERROR;
-    }
-    session->messages[off] = mes;
-    ringbuf_produce(session->ringbuf, &w);
+    pthread_mutex_lock(&session->lock_send);
+    err = WSS_message_put(session, mes);
+    pthread_mutex_unlock(&session->lock_send);
 
-    return WSS_SUCCESS;
+    return err;
 }
 
 /**
@@ -1338,6 +1392,9 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Performing write by popping messages from ringbuffer");
 
+    // If not everything is written, we proceed once the session is writable
+    session->state = WRITING;
+
     while ( likely(0 != (len = ringbuf_consume(session->ringbuf, &off))) ) {
         for (i = 0; likely(i < len); i++) {
             if ( unlikely(session->handshaked && closing) ) {
@@ -1350,13 +1407,12 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             message = session->messages[off+i];
             message_length = message->length;
 
-            while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
-                    closing = true;
-                }
+            // Check if message contains closing byte
+            if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
+                closing = true;
+            }
 
+            while ( likely(bytes_sent < message_length) ) {
                 if (NULL != session->ssl) {
                     if (! WSS_ssl_write_partial(session, i, message, &bytes_sent)) {
                         return;
@@ -1402,7 +1458,8 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Done writing to filedescriptors");
 
-    session->state = IDLE;
+    session->state = (NULL != session->payload || NULL != session->frames ||
+            (! session->handshaked && NULL != session->header)) ? READING : IDLE;
 
     if (closing) {
         WSS_log_trace("Closing connection, since closing frame has been sent");
@@ -1423,6 +1480,7 @@ void WSS_work(void *args) {
     wss_session_t *session;
     long unsigned int ms;
     struct timespec now;
+    struct pollfd hangup;
     wss_thread_args_t *arguments = (wss_thread_args_t *) args;
     wss_server_t *server = (wss_server_t *) arguments->server;
     wss_session_state_t session_state = arguments->state;
@@ -1437,23 +1495,39 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
+    // The event belonged to an earlier session that used the same filedescriptor
+    if ( unlikely(NULL == session->ringbuf) ) {
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
+    session->working = true;
     session->event = NONE;
 
-    WSS_log_trace("Checking session state");
+    if ( unlikely(session_state == CLOSING) ) {
+        WSS_log_trace("Handling close event");
+
+        hangup.fd = fd;
+        hangup.events = POLLRDHUP;
+        hangup.revents = 0;
+        if ( likely(poll(&hangup, 1, 0) > 0 && (hangup.revents & (POLLRDHUP | POLLHUP | POLLERR))) ) {
+            session->closing = true;
+        } else {
+            session->event = session->state == WRITING ? WRITE : READ;
+        }
+    } else
 
-    // We first check if session was in the middle of performing an IO task but
-    // needed to wait for further IO
-    switch (session->state) {
+    // We check if session was in the middle of performing an IO task but needed
+    // to wait for further IO
+    if ( likely(! session->closing) ) switch (session->state) {
         case WRITING:
             clock_gettime(CLOCK_MONOTONIC, &now);
             ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
@@ -1472,9 +1546,7 @@ void WSS_work(void *args) {
         case CONNECTING:
             if (NULL != server->ssl_ctx) {
                 WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
+                break;
             }
 
             WSS_read(server, session);
@@ -1499,38 +1571,21 @@ void WSS_work(void *args) {
                     session->event = READ;
                     WSS_write(server, session);
                     break;
-                case CLOSING:
-                    session->closing = true;
-                    WSS_log_trace("Handling close event");
-                    break;
                 case READING:
                     WSS_log_trace("Handling read event");
                     WSS_read(server, session);
                     break;
                 default:
-                    WSS_log_error("State that should not be possible at this point was encountered %s", state);
+                    WSS_log_error("State that should not be possible at this point was encountered %d", session_state);
+                    session->state = IDLE;
+                    session->event = READ;
                     break;
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
-
-    if (session->closing) {
-        session->event = NONE;
+    if ( unlikely(WSS_session_release(server, session)) ) {
         WSS_disconnect(server, session);
-    }
-
-    switch (session->event) {
-        case WRITE: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_write(server, session->fd);
-            break;
-        case READ: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_read(server, session->fd);
-            break;
-        case NONE: 
-            break;
+    } else {
+        WSS_session_jobs_dec(session);
     }
 }
-- 
2.43.0


From f55d07cc865115f7a114291309c381d77833ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 07/45] fix: requests and frames split over several reads, and
 batches of frames, are neither refused nor lost

---
 src/worker.c | 168 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 133 insertions(+), 35 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 3f7f515..e176ab0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -649,7 +649,6 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
             n = read(session->fd, buffer, server->config->size_buffer);
             if (n == -1) {
                 if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
                     continue;
                 } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
                     WSS_log_error("Read failed: %s", strerror(errno));
@@ -658,12 +657,30 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
                     n = 0;
                 }
             }
-        } while ( unlikely(0) );
+        } while ( unlikely(n == -1 && errno == EINTR) );
     }
 
     return n;
 }
 
+/**
+ * Whether the empty line, that ends the header of a request, was received.
+ *
+ * @param 	header      [wss_header_t *] 	"The header obtained from the session"
+ * @return              [bool]              "Whether the header is complete"
+ */
+static bool is_header_complete(wss_header_t *header) {
+    size_t i;
+
+    for (i = 3; likely(i < header->length); i++) {
+        if ( unlikely(header->content[i] == '\n' && memcmp(header->content+i-3, "\r\n\r\n", 4) == 0) ) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -680,6 +697,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        session->closing = true;
         return;
     }
 
@@ -691,6 +709,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **)&buffer);
+            session->closing = true;
             return;
         }
 
@@ -724,14 +744,17 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         switch (n) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
+                WSS_free((void **)&buffer);
                 session->header = header;
 
+                session->state = READING;
                 session->event = WRITE;
 
                 return;
             // An error occured, notify client by writing back to it
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
+                WSS_free((void **)&buffer);
 
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
                 WSS_free_header(header);
@@ -749,6 +772,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free((void **)&buffer);
+                    WSS_free_header(header);
+                    session->closing = true;
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
@@ -759,6 +785,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // If so write error back to the client
                 if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
                     WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
+                    WSS_free((void **)&buffer);
 
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
@@ -778,6 +805,17 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // The request might be received in several pieces
+    if ( unlikely(! is_header_complete(header) && header->length <= server->config->size_header+server->config->size_uri) ) {
+        WSS_log_trace("Detected that data was missing in order to complete request, will wait for more");
+
+        session->header = header;
+        session->state = header->length > 0 ? READING : IDLE;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -870,10 +908,12 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (code != HttpStatus_SwitchingProtocols) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
+        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
             session->state = WRITING;
             session->event = READ;
             WSS_write(server, session);
+        } else {
+            session->closing = true;
         }
 
         WSS_free_header(header);
@@ -886,20 +926,54 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->ws_protocol = WSS_find_subprotocol("echo");
     }
 
+    session->header = header;
+
+    if ( unlikely(NULL == message || NULL == header->ws_protocol) ) {
+        WSS_log_error("Unable to perform the websocket handshake");
+        WSS_message_free(message);
+        session->closing = true;
+        return;
+    }
+
+    // Set session as fully handshaked. No message is allowed to be put into
+    // the ringbuffer before the handshake.
+    pthread_mutex_lock(&session->lock_send);
+    if ( likely(WSS_SUCCESS == WSS_message_put(session, message)) ) {
+        session->handshaked = true;
+    } else {
+        session->closing = true;
+    }
+    pthread_mutex_unlock(&session->lock_send);
+
+    if ( unlikely(! session->handshaked) ) {
+        return;
+    }
+
     // Notify websocket protocol of the connection
     header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
 
-    // Set session as fully handshaked
-    session->handshaked = true;
-    session->header = header;
-
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
+    if ( likely(session->state != WRITING) ) {
         session->event = READ;
         WSS_write(server, session);
     }
 }
 
+/**
+ * Frees an array of frames.
+ *
+ * @param 	frames          [wss_frame_t **] 	"The frames"
+ * @param 	frames_length   [size_t] 	        "The amount of frames"
+ * @return                  [void]
+ */
+static void free_frames(wss_frame_t **frames, size_t frames_length) {
+    size_t i;
+
+    for (i = 0; likely(i < frames_length); i++) {
+        WSS_free_frame(frames[i]);
+    }
+    WSS_free((void **) &frames);
+}
+
 /**
  * Function that reads information from a session.
  *
@@ -926,6 +1000,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t message_frames;
     bool fragmented = false;
     char *buffer;
 
@@ -957,6 +1032,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     session->frames = NULL;
     session->frames_length = 0;
 
+    // Frames kept from earlier all belong to the message being received
+    message_frames = frames_length;
+
     // If handshake has been made, we can read the websocket frames from
     // the connection
     do {
@@ -966,15 +1044,23 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
+                WSS_free((void **) &buffer);
+
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
 
+                session->state = READING;
                 session->event = WRITE;
 
                 return;
             // An error occured
             case -1:
+                WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
+                free_frames(frames, frames_length);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
                 message_length = WSS_stringify_frame(frame, &message);
@@ -995,6 +1081,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                     session->event = READ;
                     WSS_write(server, session);
                 }
+                session->closing = true;
                 return;
             // No new data received
             case 0:
@@ -1003,6 +1090,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             default:
                 if ( unlikely(NULL == (payload = WSS_realloc((void **) &payload, payload_length*sizeof(char), (payload_length+n+1)*sizeof(char)))) ) {
                     WSS_log_error("Unable to reallocate the payload");
+                    WSS_free((void **) &buffer);
+                    free_frames(frames, frames_length);
                     session->closing = true;
                     return;
                 }
@@ -1020,30 +1109,33 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
-    do {
+    while ( likely(offset < payload_length) ) {
         prev_offset = offset;
 
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
             WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
 
-        // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // Check if we were forced to read beyond the payload to create a full
+        // frame. There is no need to wait for a frame that is going to be refused.
+        if ( unlikely(offset > payload_length && (frame->payloadLength <= server->config->size_frame ||
+                        (offset != SIZE_MAX && offset-frame->payloadLength > payload_length))) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
 
+            // Keep the part of the frame that was received
+            payload_length -= prev_offset;
+            memmove(payload, payload+prev_offset, payload_length);
             session->payload = payload;
             session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
+            payload = NULL;
 
-            return;
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
@@ -1148,14 +1240,21 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
                         (frames_length+1)*sizeof(wss_frame_t *)))) ) {
             WSS_log_error("Unable to reallocate frames");
+            WSS_free_frame(frame);
+            WSS_free((void **) &payload);
             session->closing = true;
             return;
         }
         frames[frames_length] = frame;
         frames_length += 1;
 
+        // Only the frames of one message are counted
+        if ( likely(frame->opcode <= BINARY_FRAME) ) {
+            message_frames = frame->opcode == CONTINUATION_FRAME ? message_frames+1 : 1;
+        }
+
         // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
+        if ( unlikely(message_frames > server->config->max_frames) ) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
@@ -1167,7 +1266,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             WSS_log_trace("Stopping frame validation as closing frame was parsed");
             break;
         }
-    } while ( likely(offset < payload_length) );
+    }
 
     WSS_free((void **) &payload);
 
@@ -1256,16 +1355,19 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
-
-        return;
+        session->frames_length = frames_length-starting_frame;
+        if ( unlikely(NULL == (session->frames = WSS_malloc(session->frames_length*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            session->frames_length = 0;
+            free_frames(frames, frames_length);
+            session->closing = true;
+            return;
+        }
+        memcpy(session->frames, frames+starting_frame, session->frames_length*sizeof(wss_frame_t *));
+        frames_length = starting_frame;
     }
 
     WSS_log_trace("Frames was validated");
-    
-    session->state = IDLE;
 
     WSS_log_trace("Sending frames to receivers");
 
@@ -1309,10 +1411,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
                 WSS_log_error("Unable to allocate message");
 
-                for (k = 0; likely(k < frames_length); k++) {
-                    WSS_free_frame(frames[k]);
-                }
-                WSS_free((void **) &frames);
+                free_frames(frames, frames_length);
 
                 session->closing = true;
 
@@ -1360,11 +1459,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
-        WSS_free((void **) &frames);
+    free_frames(frames, frames_length);
+
+    if ( likely(session->state != WRITING) ) {
+        session->state = (NULL != session->payload || NULL != session->frames) ? READING : IDLE;
     }
 
     if (! closing && session->event == NONE) {
-- 
2.43.0


From 8c694a1d37c11b2810733476458d18c88a20f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 08/45] fix: configuration arrays that were never set, and
 hosts of a refused configuration, are not freed

---
 include/config.h |  1 +
 src/config.c     | 21 +++++----------------
 src/main.c       |  3 +++
 src/str.c        |  4 ++--
 4 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/config.h b/include/config.h
index 73dcaf7..d14485c 100644
--- a/include/config.h
+++ b/include/config.h
@@ -10,6 +10,7 @@ typedef struct {
     char *string;
     size_t length;
     char **hosts;
+    char *hosts_ports;
     char **paths;
     char **queries;
     char **origins;
diff --git a/src/config.c b/src/config.c
index d7d3938..767fff8 100644
--- a/src/config.c
+++ b/src/config.c
@@ -47,11 +47,13 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         size += strlen(config->hosts[i]);
     }
 
+    WSS_free((void **) &config->hosts_ports);
     if ( unlikely(NULL == (extra = WSS_malloc((hosts_length*digits + hosts_length*ports*2 + size*ports)*sizeof(char)))) ) {
         WSS_log_error("Unable to allocate extra");
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
+    config->hosts_ports = extra;
 
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
@@ -101,7 +103,7 @@ static void WSS_config_release (void * ptr, void * user_data)
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_load(wss_config_t *config, char *path) {
-    char error[1024];
+    char error[1024] = "";
     unsigned int i, j, length;
     char *name;
     json_value *value, *val, *temp;
@@ -595,22 +597,8 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
+        WSS_free((void **) &config->hosts_ports);
 
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
@@ -619,6 +607,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
 
         WSS_free((void **) &config->string);
         WSS_free((void **) &config->hosts);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->origins);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
diff --git a/src/main.c b/src/main.c
index 59effd9..81b44a3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -56,12 +56,15 @@ int main(int argc, char *argv[]) {
     // Default values
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
+    config.subprotocols_config  = NULL;
     config.extensions           = NULL;
     config.extensions_length    = 0;
+    config.extensions_config    = NULL;
     config.favicon              = NULL;
     config.origins              = NULL;
     config.origins_length       = 0;
     config.hosts                = NULL;
+    config.hosts_ports          = NULL;
     config.hosts_length         = 0;
     config.paths                = NULL;
     config.paths_length         = 0;
diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 51ed818af2d3f22ffb883d626a174b52b91b3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 09/45] fix: http responses are exactly as long as their
 Content-Length, and the version response is not overwritten

---
 src/worker.c | 53 +++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index e176ab0..a9438b3 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -63,7 +63,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     int magic_length = strlen(MAGIC_WEBSOCKET_KEY);
     int key_length = strlen(header->ws_key) + magic_length;
     char key[key_length];
-    char *acceptKey;
+    char *acceptKey = NULL;
     size_t acceptKeyLength;
 
     if ( likely(NULL != header->version) ) {
@@ -156,7 +156,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     offset += acceptKeyLength;
     sprintf(message+offset, "\r\n");
     offset += 2;
-    sprintf(message+offset, HTTP_HANDSHAKE_HEADERS, WSS_SERVER_VERSION);
+    offset += sprintf(message+offset, HTTP_HANDSHAKE_HEADERS, WSS_SERVER_VERSION);
     WSS_free((void **) &acceptKey);
 
     if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
@@ -167,7 +167,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     WSS_log_debug("Handshake Response: \n%s", message);
 
     msg->msg = message;
-    msg->length = length;
+    msg->length = offset;
 
     return msg;
 }
@@ -184,13 +184,14 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
 static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Code code, wss_config_t *config) {
     time_t now;
     struct tm tm;
-    char *ico;
+    char *ico = NULL;
     char *etag;
     char *message;
     wss_message_t *msg;
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -220,19 +221,23 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     // Read the content of the favicon file
     if (NULL != config->favicon && access(config->favicon, F_OK) != -1) {
         // Get last modified
-        stat(config->favicon, &filestat);
+        if ( unlikely(stat(config->favicon, &filestat) != 0) ) {
+            return NULL;
+        }
         setlocale(LC_ALL, "C");
         tm = *gmtime(&filestat.st_mtime);
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
         icon = strload(config->favicon, &ico);
-    } else {
+    }
+
+    if ( unlikely(NULL == ico) ) {
         return NULL;
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -240,15 +245,10 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         return NULL;
     }
 
-    headers += strlen(HTTP_ICO_HEADERS)*sizeof(char)-10*sizeof(char);
-    headers += (log10(icon)+1);
-    headers += strlen(date)*sizeof(char);
-    headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
-    headers += strlen(etag)*sizeof(char);
-    headers += strlen(modified)*sizeof(char);
+    headers += snprintf(NULL, 0, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -258,13 +258,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    msg->length = length;
+
     return msg;
 }
 
@@ -300,8 +303,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -366,21 +369,21 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From 5cb531476198bf64ba6b2b431680715ea1124156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 10/45] fix: header fields without a value, lists of separators
 and repeated fields of an opening request are parsed safely

---
 src/header.c | 83 +++++++++++++++++++++++++++++++++++++---------------
 src/worker.c | 32 +++++++++++++++-----
 2 files changed, 84 insertions(+), 31 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..6c7ecb4 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,25 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Returns the first value of a comma separated list of values.
+ *
+ * @param   list    [char *]    "The list, NULL if the header field has no value"
+ * @param   sepptr  [char **]   "Will point to the remaining values"
+ * @return          [char *]    "The first value, NULL if there are none"
+ */
+static inline char *first_value(char *list, char **sepptr)
+{
+    if ( unlikely(NULL == list) ) {
+        *sepptr = "";
+        return NULL;
+    }
+
+    return trim(strtok_r(list, ",", sepptr));
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -214,6 +231,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **)&exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -226,10 +244,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_version != 0) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = first_value(strtok_r(NULL, "", &lineptr), &sepptr);
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,20 +256,20 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = first_value(strtok_r(NULL, "", &lineptr), &sepptr);
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -264,34 +283,39 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
-                line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
-                    WSS_log_error("Unable to allocate space for extensions string");
-                    return HttpStatus_InternalServerError;
-                }
+                if ( likely(NULL != (line = trim(strtok_r(NULL, "", &lineptr)))) ) {
+                    line_length = strlen(line);
+                    if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
+                        WSS_log_error("Unable to allocate space for extensions string");
+                        return HttpStatus_InternalServerError;
+                    }
 
-                memcpy(exts+extensions_length, line, line_length);
-                extensions_length += line_length;
+                    // Several header fields are equal to one list of all of their values
+                    memcpy(exts+extensions_length, line, line_length);
+                    extensions_length += line_length;
+                    exts[extensions_length++] = ',';
+                    exts[extensions_length] = '\0';
+                }
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = first_value(strtok_r(NULL, "", &lineptr), &sepptr);
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -306,11 +330,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = trim(strtok_r(NULL, "", &lineptr));
             }
         }
 
@@ -320,6 +344,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **)&exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -333,6 +358,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **)&exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -347,6 +373,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **)&exts);
         return HttpStatus_BadRequest;
     }
 
@@ -354,10 +381,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         sep = trim(strtok_r(exts, ",", &sepptr));
         while(NULL != sep) {
             in_use = false;
-            sep = trim(strtok_r(sep, ";", &paramptr));
+            name = NULL;
 
-            if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
+            sep = trim(strtok_r(sep, ";", &paramptr));
+            if ( likely(NULL != sep) && NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
                 WSS_log_error("Unable to allocate space for extension structure");
+                WSS_free((void **)&exts);
                 return HttpStatus_InternalServerError;
             }
 
@@ -370,7 +399,9 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
-                    ext->open(fd, trim(paramptr), &accepted, &valid); 
+                    valid = false;
+                    accepted = NULL;
+                    ext->open(fd, trim(paramptr), &accepted, &valid);
                     if ( likely(valid) ) {
                         if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
                             WSS_log_error("Unable to allocate space for extension");
@@ -385,9 +416,13 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
                         header->ws_extensions_count += 1;
+                        name = NULL;
+                    } else {
+                        WSS_free((void **) &accepted);
                     }
                 }
             }
+            WSS_free((void **) &name);
 
             sep = trim(strtok_r(NULL, ",", &sepptr));
         }
diff --git a/src/worker.c b/src/worker.c
index a9438b3..0e0efea 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -684,6 +684,24 @@ static bool is_header_complete(wss_header_t *header) {
     return false;
 }
 
+/**
+ * Frees a header that was not used to open a session. Extensions that were
+ * opened while parsing the header are closed.
+ *
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @param 	header	[wss_header_t *] 	"The header structure"
+ * @return          [void]
+ */
+static void free_header(wss_session_t *session, wss_header_t *header) {
+    size_t i;
+
+    for (i = 0; i < header->ws_extensions_count; i++) {
+        header->ws_extensions[i]->ext->close(session->fd);
+    }
+
+    WSS_free_header(header);
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -760,7 +778,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 WSS_free((void **)&buffer);
 
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
-                WSS_free_header(header);
+                free_header(session, header);
 
                 if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
                     session->state = WRITING;
@@ -776,7 +794,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
                     WSS_free((void **)&buffer);
-                    WSS_free_header(header);
+                    free_header(session, header);
                     session->closing = true;
                     return;
                 }
@@ -792,7 +810,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
+                    free_header(session, header);
 
                     if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
                         session->state = WRITING;
@@ -829,7 +847,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
         message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
+        free_header(session, header);
 
         if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
             session->state = WRITING;
@@ -844,7 +862,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
+            free_header(session, header);
 
             WSS_log_trace("Serving a favicon to the client");
 
@@ -860,7 +878,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
+            free_header(session, header);
 
             if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
                 session->state = WRITING;
@@ -919,7 +937,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             session->closing = true;
         }
 
-        WSS_free_header(header);
+        free_header(session, header);
 
         return;
     }
-- 
2.43.0


From a62bba9b732180d6caed7de6743f1326b219ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 11/45] fix: permessage-deflate declines malformed offers, and
 compressed messages are neither truncated, nor passed on undecoded, nor
 overflow the stack

---
 .../permessage-deflate/permessage-deflate.c   | 366 +++++++++---------
 src/worker.c                                  |  17 +-
 2 files changed, 188 insertions(+), 195 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..04746f5 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -27,8 +27,8 @@
 #define EXT_SERVER_MAX_WINDOW_BITS     "server_max_window_bits"
 #define EXT_CLIENT_MAX_WINDOW_BITS     "client_max_window_bits"
 
-#define MAX_CHUNK_SIZE UINT_MAX
-#define MIN_CHUNK_SIZE 1
+#define MAX_CHUNK_SIZE (INT_MAX/2)
+#define MIN_CHUNK_SIZE 8 // zlib repeats flush markers if there is room for less than 7 bytes
 #define SERVER_MAX_MEM_LEVEL MAX_MEM_LEVEL
 #define SERVER_MIN_MEM_LEVEL 1
 #define SERVER_MAX_WINDOW_BITS 15
@@ -117,14 +117,36 @@ static inline char *trim(char* str)
     return str;
 }
 
-static void parse_param(const char *param, param_t *p) {
-    int bits, j;
-    char *sep, *sepptr;
-    size_t params_length = strlen(param);
-    char buffer[params_length+1];
+static bool parse_bits(const char *value, int min, int max, uint8_t *bits) {
+    size_t i;
+    size_t length = strlen(value);
 
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
+    // A decimal integer without leading zeroes
+    if ( unlikely(length < 1 || length > 2 || value[0] == '0') ) {
+        return false;
+    }
+
+    for (i = 0; likely(i < length); i++) {
+        if ( unlikely(value[i] < '0' || value[i] > '9') ) {
+            return false;
+        }
+    }
+
+    *bits = strtol(value, NULL, 10);
+
+    return *bits >= min && *bits <= max;
+}
+
+/**
+ * Parses the parameters of an offer.
+ *
+ * @param   buffer  [char *]     "The parameters, which are modified"
+ * @param   p       [param_t *]  "The structure to fill"
+ * @return          [bool]       "Whether the offer can be accepted"
+ */
+static bool parse_param(char *buffer, param_t *p) {
+    char *sep, *sepptr = NULL, *value;
+    bool cnct = false, snct = false, cmwb = false, smwb = false;
 
     // Server defaults
     p->client_no_context_takeover = default_client_no_context_takeover;
@@ -132,55 +154,57 @@ static void parse_param(const char *param, param_t *p) {
     p->server_max_window_bits = default_server_window_bits;
     p->client_max_window_bits = 0;
 
-    sep = trim(strtok_r(buffer, ";", &sepptr));
-    while ( likely(NULL != sep) ) {
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' && sep[j] != '\0' ) {
-                j++;
-            }
+    for (sep = strtok_r(buffer, ";", &sepptr); likely(NULL != sep); sep = strtok_r(NULL, ";", &sepptr)) {
+        if ( NULL != (value = strchr(sep, '=')) ) {
+            *value = '\0';
+            value = trim(value+1);
+        }
 
-            if (sep[j] != '\0') {
-                j++;
-                bits = strtol(sep+j, NULL, 10);
+        sep = trim(sep);
 
-                p->client_max_window_bits = MIN(bits, CLIENT_MAX_WINDOW_BITS);
-            } else {
+        if ( strcmp(EXT_CLIENT_MAX_WINDOW_BITS, sep) == 0 ) {
+            if ( unlikely(cmwb) ) {
+                return false;
+            }
+            cmwb = true;
+
+            if ( NULL == value ) {
                 // Default
                 p->client_max_window_bits = default_client_window_bits;
+            } else if ( unlikely(! parse_bits(value, CLIENT_MIN_WINDOW_BITS, CLIENT_MAX_WINDOW_BITS, &p->client_max_window_bits)) ) {
+                return false;
             }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' ) {
-                j++;
+        } else if ( strcmp(EXT_SERVER_MAX_WINDOW_BITS, sep) == 0 ) {
+            // zlib does not support a window of 8 bits
+            if ( unlikely(smwb || NULL == value || ! parse_bits(value, SERVER_MIN_WINDOW_BITS+1, SERVER_MAX_WINDOW_BITS, &p->server_max_window_bits)) ) {
+                return false;
             }
-
-            j++;
-            bits = strtol(sep+j, NULL, 10);
-
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
+            smwb = true;
+        } else if ( strcmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep) == 0 ) {
+            if ( unlikely(cnct || NULL != value) ) {
+                return false;
             }
-
-            p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
-        } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
+            cnct = true;
             p->client_no_context_takeover = true;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
+        } else if ( strcmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep) == 0 ) {
+            if ( unlikely(snct || NULL != value) ) {
+                return false;
+            }
+            snct = true;
             p->server_no_context_takeover = true;
+        } else if ( unlikely(sep[0] != '\0' || NULL != value) ) {
+            return false;
         }
-
-        sep = trim(strtok_r(NULL, ";", &sepptr));
     }
+
+    return true;
 }
 
-static char * negotiate(char *param, wss_comp_t *comp) {
+static char * negotiate(wss_comp_t *comp) {
     size_t snct_length = 0, cnct_length = 0, cmwb_length = 0, smwb_length = 0, accepted_length = 0, written = 0;
     char *accepted = NULL;
     param_t *p = &comp->params;
 
-    parse_param(param, p);
-
     if (p->server_no_context_takeover) {
         // server_no_contect_takeover
         snct_length = strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)+1;
@@ -303,6 +327,7 @@ void onInit(char *config) {
 
     err = regexec(&re, buffer, nmatch, matches, 0);
     if ( unlikely(err != 0) ) {
+        regfree(&re);
         return;
     }
 
@@ -404,129 +429,56 @@ void setAllocators(WSS_malloc_t extmalloc, WSS_realloc_t extrealloc, WSS_free_t
  * @return 	            [void]
  */
 void onOpen(int fd, char *param, char **accepted, bool *valid) {
-    int err, j;
-    long int val;
-    size_t i;
-    regex_t re;
-    size_t nmatch = 7;
-    regmatch_t matches[nmatch];
     wss_comp_t *comp;
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
-
-    if ( NULL == param ) {
-        if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-            *valid = false;
-            return;
-        }
-
-        if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-            *valid = false;
-            return;
-        }
-
-        comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
-        comp->params.server_max_window_bits = default_server_window_bits;
-        comp->params.client_no_context_takeover = default_client_no_context_takeover;
-        comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-        if ( unlikely(! init_comp(comp)) ) {
-            allocs.free(comp);
-            *valid = false;
-            return;
-        }
-
-        HASH_ADD_INT(compressors, fd, comp);
+    size_t params_length = NULL != param ? strlen(param) : 0;
+    char *buffer;
 
-        pthread_mutex_unlock(&lock);
+    *valid = false;
+    *accepted = NULL;
 
-        *valid = true;
+    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
         return;
     }
-    size_t params_length = strlen(param);
-    char buffer[params_length+1];
-
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
-        *valid = false;
-        return;
-    } 
-
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
 
-    err = regexec(&re, buffer, nmatch, matches, 0);
-    if ( unlikely(err != 0) ) {
-        *valid = false;
+    if ( unlikely(NULL == (buffer = allocs.malloc((params_length+1)*sizeof(char)))) ) {
+        allocs.free(comp);
         return;
     }
 
-    for (i = 3; likely(i < nmatch-1); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while (buffer[j] != '=' && buffer[j] != '\0') {
-                j++;
-            }
-
-            if (buffer[j] != '\0') {
-                j++;
-                val = strtol(buffer+j, NULL, 10);
-                if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                    *valid = false;
-                    return;
-                }
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                *valid = false;
-                return;
-            }
-        }
-    }
-
-    regfree(&re);
-
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        *valid = false;
-        return;
+    memset(comp, '\0', sizeof(wss_comp_t));
+    if ( likely(NULL != param) ) {
+        memcpy(buffer, param, params_length);
     }
+    buffer[params_length] = '\0';
 
-    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-        *valid = false;
+    if ( unlikely(! parse_param(buffer, &comp->params)) ) {
+        allocs.free(buffer);
+        allocs.free(comp);
         return;
     }
+    allocs.free(buffer);
 
     comp->fd = fd;
-    comp->params.client_max_window_bits = default_client_window_bits;
-    comp->params.server_max_window_bits = default_server_window_bits;
-    comp->params.client_no_context_takeover = default_client_no_context_takeover;
-    comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-    *accepted = negotiate(param, comp);
 
     if ( unlikely(! init_comp(comp)) ) {
         allocs.free(comp);
-        *valid = false;
         return;
     }
 
-    HASH_ADD_INT(compressors, fd, comp);
+    if ( unlikely(NULL == (*accepted = negotiate(comp)) || pthread_mutex_lock(&lock) != 0) ) {
+        allocs.free(*accepted);
+        *accepted = NULL;
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
+        allocs.free(comp);
+        return;
+    }
 
-    *valid = true;
+    HASH_ADD_INT(compressors, fd, comp);
 
     pthread_mutex_unlock(&lock);
+
+    *valid = true;
 }
 
 /**
@@ -554,9 +506,13 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     wss_comp_t *comp = NULL;
     size_t current_length = 0;
     size_t message_length = 0;
+    size_t message_size = 0;
     int flush_mask = Z_SYNC_FLUSH;
+    int status;
+    char *payload, *copy;
 
-    if (! frames[0]->rsv1) {
+    // Only data messages are compressed
+    if (! frames[0]->rsv1 || frames[0]->opcode >= 0x8) {
         return;
     }
 
@@ -577,8 +533,9 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     }
     payload_length += 4;
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length*sizeof(char)))) ) {
+        return;
+    }
 
     for (j = 0; likely(j < len); j++) {
         memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
@@ -596,25 +553,43 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
 
     // Decompress data
     do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
+        if ( likely(message_size-message_length < (size_t)default_chunk_size) ) {
+            message_size += message_size > (size_t)default_chunk_size ? message_size : (size_t)default_chunk_size;
+
+            if ( unlikely(NULL == (copy = allocs.realloc(message, message_size*sizeof(char)))) ) {
+                allocs.free(message);
+                allocs.free(payload);
+                return;
+            }
+            message = copy;
         }
-        memset(message+message_length, '\0', default_chunk_size+1); 
 
         comp->decompressor.avail_out = default_chunk_size;
         comp->decompressor.next_out = (unsigned char *)message+message_length;
-        switch (inflate(&comp->decompressor, flush_mask)) {
-            case Z_OK:
+        switch ((status = inflate(&comp->decompressor, flush_mask))) {
             case Z_STREAM_END:
+                // The peer is allowed to end the deflate stream, the window is
+                // kept for the following data
+                (void)inflateResetKeep(&comp->decompressor);
+                break;
+            case Z_OK:
             case Z_BUF_ERROR:
                 break;
             default:
                 allocs.free(message);
+                allocs.free(payload);
                 return;
         }
         message_length += default_chunk_size - comp->decompressor.avail_out;
-    } while ( comp->decompressor.avail_out == 0 );
+    } while ( comp->decompressor.avail_out == 0 || (status == Z_STREAM_END && comp->decompressor.avail_in > 0) );
+
+    allocs.free(payload);
+
+    // A message ends at the end of a block. Otherwise some of it is missing.
+    if ( unlikely(status != Z_STREAM_END && ! (comp->decompressor.data_type & 128)) ) {
+        allocs.free(message);
+        return;
+    }
 
     // unset rsv1 bit
     frames[0]->rsv1 = false;
@@ -629,10 +604,11 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
             size = message_length-current_length;
         }
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
+        if ( unlikely(NULL == (copy = allocs.realloc(frames[j]->payload, size+1))) ) {
             allocs.free(message);
             return;
         }
+        frames[j]->payload = copy;
         memcpy(frames[j]->payload, message+current_length, size);
         current_length += size;
         frames[j]->extensionDataLength = 0;
@@ -653,6 +629,39 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
 void outFrame(int fd, wss_frame_t *frame) {
 }
 
+/**
+ * Compresses all of the input of the compressor
+ *
+ * @param 	comp	[wss_comp_t *]   "The compressor of the session"
+ * @param 	flush	[int]            "How to flush the compressor"
+ * @param 	message	[char *]         "What was compressed until now"
+ * @param 	length	[size_t *]       "The length of the message"
+ * @return 	        [char *]         "The message with room for two more bytes, or NULL if an error occured"
+ */
+static char *deflate_all(wss_comp_t *comp, int flush, char *message, size_t *length) {
+    char *copy;
+    int status;
+
+    do {
+        if ( unlikely(NULL == (copy = allocs.realloc(message, (*length+default_chunk_size+2)*sizeof(char)))) ) {
+            allocs.free(message);
+            return NULL;
+        }
+        message = copy;
+
+        comp->compressor.avail_out = default_chunk_size;
+        comp->compressor.next_out = (unsigned char *)message+*length;
+        status = deflate(&comp->compressor, flush);
+        if ( unlikely(status != Z_OK && status != Z_STREAM_END && status != Z_BUF_ERROR) ) {
+            allocs.free(message);
+            return NULL;
+        }
+        *length += default_chunk_size - comp->compressor.avail_out;
+    } while ( comp->compressor.avail_out == 0 );
+
+    return message;
+}
+
 /**
  * Event called when a full set of frames are about to be sent.
  *
@@ -669,6 +678,7 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t message_length = 0;
     int flush_mask = Z_SYNC_FLUSH;
     wss_comp_t *comp;
+    char *payload, *copy;
 
     if ( unlikely(frames[0]->opcode >= 0x8 && frames[0]->opcode <= 0xA) ) {
         return;
@@ -690,8 +700,9 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         payload_length += frames[j]->payloadLength; 
     }
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
+    if ( unlikely(NULL == (payload = allocs.malloc((payload_length+1)*sizeof(char)))) ) {
+        return;
+    }
 
     for (j = 0; likely(j < len); j++) {
         memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
@@ -707,49 +718,17 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     comp->compressor.avail_in = payload_length;
     comp->compressor.next_in = (unsigned char *)payload;
 
-    do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+    message = deflate_all(comp, flush_mask, message, &message_length);
 
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
-    } while ( comp->compressor.avail_out == 0 );
+    allocs.free(payload);
 
     // https://github.com/madler/zlib/issues/149
-    if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
-
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+    if (comp->params.server_no_context_takeover && likely(NULL != message)) {
+        message = deflate_all(comp, Z_FULL_FLUSH, message, &message_length);
+    }
 
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+    if ( unlikely(NULL == message) ) {
+        return;
     }
 
     if ( unlikely(message_length < 5 || memcmp(message+message_length-4, "\x00\x00\xff\xff", 4) != 0) ) {
@@ -774,10 +753,11 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
             size = message_length-current_length;
         }
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
+        if ( unlikely(NULL == (copy = allocs.realloc(frames[j]->payload, size+1))) ) {
             allocs.free(message);
             return;
         }
+        frames[j]->payload = copy;
         memcpy(frames[j]->payload, message+current_length, size);
         current_length += size;
         frames[j]->extensionDataLength = 0;
diff --git a/src/worker.c b/src/worker.c
index 0e0efea..a8e0ed6 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1446,14 +1446,27 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_debug("Unmasked message (%d bytes): %s\n", msg_length, msg);
 
+            // Reserved bits must have been handled by the extensions
+            code = 0;
+            for (j = starting_frame; likely(j <= i); j++) {
+                if ( unlikely(frames[j]->rsv1 || frames[j]->rsv2 || frames[j]->rsv3) ) {
+                    WSS_log_trace("Protocol Error: rsv bits were not handled by an extension");
+                    code = CLOSE_PROTOCOL;
+                }
+            }
+
             // Check utf8 for text frames
-            if ( unlikely(frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
+            if ( unlikely(code == 0 && frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
                 WSS_log_trace("UTF8 Error: the text was not UTF8 encoded correctly");
+                code = CLOSE_UTF8;
+            }
+
+            if ( unlikely(code != 0) ) {
 
                 for (j = starting_frame; likely(j < frames_length); j++) {
                     WSS_free_frame(frames[j]);
                 }
-                frames[starting_frame] = WSS_closing_frame(CLOSE_UTF8, NULL);
+                frames[starting_frame] = WSS_closing_frame(code, NULL);
                 frames_length = starting_frame+1;
                 i = starting_frame;
                 len = 1;
-- 
2.43.0


From 82aaca1a25e558d75d5e8cdde1d5b52f8562734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 12/45] fix: a job is not dropped while the queue of the thread
 pool is full

---
 src/event.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index b914dac..225704f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -117,7 +117,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                         retries += 1;
                         WSS_log_trace("Threadpool full, will retry shortly. Retry number: %d", retries);
                         nanosleep(&tim, NULL);
-                        continue;
+                        break;
                     }
 
                     // Currently we treat a full threadpool as an error, but
@@ -137,7 +137,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                     return WSS_THREADPOOL_ERROR;
             }
         }
-    } while (0);
+    } while ( unlikely(err != 0) );
 
     return WSS_SUCCESS;
 }
@@ -444,6 +444,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
             err = WSS_add_to_threadpool(server, &WSS_work, (void *)args);
             if ( unlikely(err != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(fd == close_pipefd[0]) ) {
@@ -785,6 +786,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
              */
             if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(events[i].data.fd == close_pipefd[0]) ) {
@@ -1112,6 +1114,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                  */
                 if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding connect job to worker pool");
+                    WSS_free((void **)&args);
                     return err;
                 }
             } else if ( unlikely(fd == close_pipefd[0]) ) {
-- 
2.43.0


From 6d5eb53d44dbc938deb16edcda9b9c8eaaae3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 13/45] fix: requests within the header, uri and payload limits
 are not refused because of their line endings

---
 src/worker.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index a8e0ed6..b95f525 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -684,6 +684,17 @@ static bool is_header_complete(wss_header_t *header) {
     return false;
 }
 
+/**
+ * The size a request can have without its payload. The limit of the header
+ * fields counts neither the request line nor the line endings.
+ *
+ * @param 	config      [wss_config_t *] 	"The configuration of the server"
+ * @return              [size_t]            "The size in bytes"
+ */
+static size_t max_head_length(wss_config_t *config) {
+    return strlen("GET  HTTP/1.1\r\n\r\n") + (size_t)config->size_uri + 3*(size_t)config->size_header;
+}
+
 /**
  * Frees a header that was not used to open a session. Extensions that were
  * opened while parsing the header are closed.
@@ -804,7 +815,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                 // Check if payload from client is too large for the server to handle.
                 // If so write error back to the client
-                if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
+                if ( unlikely(header->length > max_head_length(server->config)+server->config->size_payload) ) {
                     WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
                     WSS_free((void **)&buffer);
 
@@ -827,7 +838,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     WSS_free((void **)&buffer);
 
     // The request might be received in several pieces
-    if ( unlikely(! is_header_complete(header) && header->length <= server->config->size_header+server->config->size_uri) ) {
+    if ( unlikely(! is_header_complete(header) && header->length <= max_head_length(server->config)) ) {
         WSS_log_trace("Detected that data was missing in order to complete request, will wait for more");
 
         session->header = header;
-- 
2.43.0


From f1fdf7b582f54bb36929118cf390683ae3c6897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 14/45] fix: the response to an unsupported HTTP version does
 not repeat that version in its status line

---
 src/worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index b95f525..904119a 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -353,7 +353,8 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
     setlocale(LC_ALL, savedlocale);
 
-    if ( likely(NULL != header->version) ) {
+    // A version that is not supported must not be used in the response either
+    if ( likely(NULL != header->version && code != HttpStatus_HTTPVersionNotSupported) ) {
         version = header->version;
     }
 
-- 
2.43.0


From 5742672d35b14dbc837b3698a449d906bf49c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 15/45] fix: an earlier interrupted call does not make the
 registration of epoll events loop for ever

---
 src/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 225704f..78a28ec 100644
--- a/src/event.c
+++ b/src/event.c
@@ -535,7 +535,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
                 ret = epoll_ctl(poll_fd, EPOLL_CTL_ADD, fd, &event);
             }
         }
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to (re)arm file descriptor to epoll: %s", strerror(errno));
@@ -702,7 +702,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
         event.data.fd = fd;
 
         ret = epoll_ctl(server->poll_fd, EPOLL_CTL_DEL, fd, &event);
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to remove session %d from epoll: %s", fd, strerror(errno));
-- 
2.43.0


From deaaaa20d2d73f634a092688da0fdadb5226b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 16/45] fix: a repeated version or key field of an opening
 request is refused also if the first one had no usable value

---
 src/header.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/header.c b/src/header.c
index 6c7ecb4..c7b7bc4 100644
--- a/src/header.c
+++ b/src/header.c
@@ -124,6 +124,7 @@ static inline void header_set_version(wss_header_t *header, char *v) {
  */
 enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
     bool valid, in_use, double_clrf = false;
+    bool has_version = false, has_key = false;
     size_t i, line_length;
     char *lineptr, *temp, *line, *sep, *accepted;
     char *tokenptr = NULL, *sepptr = NULL, *paramptr = NULL;
@@ -242,12 +243,13 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             if ( line_length == strlen(SEC_WEBSOCKET_VERSION) && 
                 strncasecmp(SEC_WEBSOCKET_VERSION, line, line_length) == 0 ) {
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
-                if ( unlikely(header->ws_version != 0) ) {
+                if ( unlikely(has_version) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
                     WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
 
+                has_version = true;
                 sep = first_value(strtok_r(NULL, "", &lineptr), &sepptr);
                 while (NULL != sep) {
                     header_set_version(header, sep);
@@ -287,11 +289,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
-                if ( unlikely(header->ws_key != NULL) ) {
+                if ( unlikely(has_key) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
                     WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
+                has_key = true;
                 header->ws_key = trim(strtok_r(NULL, "", &lineptr));
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-- 
2.43.0


From cb832f6ec2957407f4874c8a4d5bc7cd7ad0463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 17/45] fix: a continuation frame without a message is a
 protocol error also if it arrives together with a complete message

---
 src/worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 904119a..5596b56 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1291,6 +1291,11 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
+        } else
+
+        // A continuation of a completed message does not belong to any message
+        if ( likely(frame->opcode <= BINARY_FRAME && frame->fin) ) {
+            message_frames = 0;
         }
 
         // Close
-- 
2.43.0


From 9382701e4429b499fd23747bec6cec6fe0753f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 18/45] fix: a client that reads is not disconnected because
 others send faster than its messages are written

---
 include/message.h |   9 ++++
 src/message.c     | 130 ++++++++++++++++++++++++++++++++++++----------
 src/worker.c      |   5 ++
 3 files changed, 116 insertions(+), 28 deletions(-)

diff --git a/include/message.h b/include/message.h
index 50328ec..b058f83 100644
--- a/include/message.h
+++ b/include/message.h
@@ -20,6 +20,15 @@ typedef struct {
 
 wss_error_t WSS_message_put(void *session, wss_message_t *message);
 
+/**
+ * Tells which session the calling thread holds, NULL if it holds none.
+ *
+ * @param   server      [void *]    "The server of the session"
+ * @param   session     [void *]    "The session"
+ * @return              [void]
+ */
+void WSS_message_hold(void *server, void *session);
+
 void WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length);
diff --git a/src/message.c b/src/message.c
index 4938d45..893bff8 100644
--- a/src/message.c
+++ b/src/message.c
@@ -10,8 +10,15 @@
 #include "error.h"
 #include "predict.h"
 
+#include <time.h>
 #include <sys/socket.h>
 
+/**
+ * The amount of milliseconds to wait for a full ringbuffer to be written by the
+ * thread that holds the session.
+ */
+#define MAX_SEND_ATTEMPTS 1000
+
 /**
  * Function that puts a message into the ringbuffer of the session.
  *
@@ -70,15 +77,80 @@ static void flush(wss_server_t *server, wss_session_t *session) {
     pthread_mutex_unlock(&session->lock);
 }
 
+/**
+ * The session that is held by the calling thread.
+ */
+static _Thread_local wss_server_t *held_server = NULL;
+static _Thread_local wss_session_t *held_session = NULL;
+
+void WSS_message_hold(void *server, void *session) {
+    held_server = (wss_server_t *)server;
+    held_session = (wss_session_t *)session;
+}
+
+/**
+ * Function that gives the thread that holds a session a chance to write the
+ * messages of its full ringbuffer.
+ *
+ * @param   server      [wss_server_t *]    "The server structure"
+ * @param   session     [wss_session_t *]   "The session"
+ * @param   attempts    [unsigned int *]    "The amount of times to wait for the other thread"
+ * @return              [bool]              "False if the messages can not be written"
+ */
+static bool await_space(wss_server_t *server, wss_session_t *session, unsigned int *attempts) {
+    bool blocked;
+    struct timespec tim = { 0, 1000000 };
+
+    if ( session->closing || *attempts == 0 ) {
+        return false;
+    }
+
+    *attempts -= 1;
+
+    if ( 0 == pthread_mutex_trylock(&session->lock) ) {
+        blocked = session->closing || WRITING == session->state;
+
+        pthread_mutex_unlock(&session->lock);
+
+        // The client does not read what it is sent
+        if ( blocked ) {
+            return false;
+        }
+
+        flush(server, session);
+
+        return true;
+    }
+
+    // The other thread could itself be waiting for the session held by this one
+    if ( NULL != held_session ) {
+        flush(held_server, held_session);
+    }
+
+    nanosleep(&tim, NULL);
+
+    return true;
+}
+
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     char *out;
+    ssize_t off;
     uint64_t out_length;
     wss_message_t *m;
-    wss_error_t err;
+    ringbuf_worker_t *w = NULL;
+    unsigned int attempts = MAX_SEND_ATTEMPTS;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_log_error("Unable to allocate message structure");
+
+        WSS_session_jobs_dec(session);
+
+        return;
+    }
+
     // Messages must be written in the order they were given to the extensions
     pthread_mutex_lock(&session->lock_send);
 
@@ -86,11 +158,31 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         WSS_log_error("Session is not ready to receive messages");
 
         pthread_mutex_unlock(&session->lock_send);
+        WSS_message_free(m);
         WSS_session_jobs_dec(session);
 
         return;
     }
 
+    while ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
+        pthread_mutex_unlock(&session->lock_send);
+
+        if ( unlikely(! await_space(server, session, &attempts)) ) {
+            WSS_log_error("Failed to acquire space in ringbuffer");
+
+            // The session would silently miss a message, hence it is disconnected
+            session->closing = true;
+            shutdown(session->fd, SHUT_RDWR);
+
+            WSS_message_free(m);
+            WSS_session_jobs_dec(session);
+
+            return;
+        }
+
+        pthread_mutex_lock(&session->lock_send);
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -105,40 +197,22 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         }
     }
 
+    // The message is left empty if the frames can not be converted
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
-
-        pthread_mutex_unlock(&session->lock_send);
-        WSS_session_jobs_dec(session);
-
-        return;
-    }
-
-    if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
-        WSS_log_error("Unable to allocate message structure");
-
-        WSS_free((void **) &out);
-
-        pthread_mutex_unlock(&session->lock_send);
-        WSS_session_jobs_dec(session);
-
-        return;
+    } else {
+        m->msg = out;
+        m->length = out_length;
+        m->framed = true;
     }
-    m->msg = out;
-    m->length = out_length;
-    m->framed = true;
 
-    err = WSS_message_put(session, m);
+    session->messages[off] = m;
+    ringbuf_produce(session->ringbuf, &w);
+    session->flush = true;
 
     pthread_mutex_unlock(&session->lock_send);
 
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        // The session would silently miss a message, hence it is disconnected
-        session->closing = true;
-        shutdown(session->fd, SHUT_RDWR);
-    } else {
-        flush(server, session);
-    }
+    flush(server, session);
 
     WSS_session_jobs_dec(session);
 }
diff --git a/src/worker.c b/src/worker.c
index 5596b56..0ea0311 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -478,6 +478,10 @@ bool WSS_session_release(wss_server_t *server, wss_session_t *session) {
 
     closing = session->closing;
 
+    if ( session->working ) {
+        WSS_message_hold(NULL, NULL);
+    }
+
     if ( unlikely(closing) ) {
         if ( ! session->working ) {
             // Wakes up a thread that is able to disconnect the session
@@ -1660,6 +1664,7 @@ void WSS_work(void *args) {
 
     session->working = true;
     session->event = NONE;
+    WSS_message_hold(server, session);
 
     if ( unlikely(session_state == CLOSING) ) {
         WSS_log_trace("Handling close event");
-- 
2.43.0


From eeb805ab675cc1adec59db041026b381a1d21d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 19/45] fix: a client that is active while idle clients are
 looked for is not timed out

---
 src/server.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index 88632b7..74c00fd 100644
--- a/src/server.c
+++ b/src/server.c
@@ -41,7 +41,7 @@ struct timespec now;
 
 static void cleanup_session(wss_session_t *session) {
     wss_frame_t *frame;
-    long unsigned int ms;
+    long int ms;
     wss_server_t *server = servers.http;
 
     if (! session->handshaked || session->closing) {
@@ -54,11 +54,12 @@ static void cleanup_session(wss_session_t *session) {
 
     ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
 
-    WSS_log_info("Check timeout %d ms", ms);
+    // Negative if the session has been active since the cleanup began
+    WSS_log_info("Check timeout %ld ms", ms);
 
     // Session timed out
-    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_log_info("Session %d has timedout last active %d ms ago", session->fd, ms);
+    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long int)server->config->timeout_client) ) {
+        WSS_log_info("Session %d has timedout last active %ld ms ago", session->fd, ms);
 
         if ( unlikely(NULL == (frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL))) ) {
             return;
-- 
2.43.0


From cb2085ecd483198034fc2952e9ae0b763c4f17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 20/45] fix: compressed messages that fill the last chunk
 exactly are not refused

Whether the message was complete is read from the last call to inflate
that did something: a further call without input changes the state.
---
 extensions/permessage-deflate/permessage-deflate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 04746f5..0cd4d9b 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -509,6 +509,7 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t message_size = 0;
     int flush_mask = Z_SYNC_FLUSH;
     int status;
+    bool complete = false;
     char *payload, *copy;
 
     // Only data messages are compressed
@@ -580,13 +581,17 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
                 allocs.free(payload);
                 return;
         }
+        // If nothing was left to do the state of the last call is the valid one
+        if ( likely(status != Z_BUF_ERROR) ) {
+            complete = status == Z_STREAM_END || (comp->decompressor.data_type & 128);
+        }
         message_length += default_chunk_size - comp->decompressor.avail_out;
     } while ( comp->decompressor.avail_out == 0 || (status == Z_STREAM_END && comp->decompressor.avail_in > 0) );
 
     allocs.free(payload);
 
     // A message ends at the end of a block. Otherwise some of it is missing.
-    if ( unlikely(status != Z_STREAM_END && ! (comp->decompressor.data_type & 128)) ) {
+    if ( unlikely(! complete) ) {
         allocs.free(message);
         return;
     }
-- 
2.43.0


From 3da83374cd693297ad34825535c21ec56596e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 21/45] fix: reserved bits on pings and pongs fail the
 connection also with extensions

Pings were turned into pongs without the bits and pongs dropped before the
bits were looked at.
---
 src/worker.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 0ea0311..be455d9 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1259,6 +1259,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             }
         } else
 
+        // Extensions only see pings after they were turned into pongs, hence they
+        // cannot handle the reserved bits of control frames
+        if ( unlikely((frame->opcode == PING_FRAME || frame->opcode == PONG_FRAME) && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
+            WSS_log_trace("Protocol Error: rsv bits must not be set on a ping or pong");
+            WSS_free_frame(frame);
+            frame = WSS_closing_frame(CLOSE_PROTOCOL, NULL);
+        } else
+
         // Pong
         if ( unlikely(frame->opcode == PONG_FRAME) ) {
             WSS_log_trace("Pong received");
-- 
2.43.0


From 18b46f9e8252ee36d0c7c5ad19ec78efe9a7bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 22/45] fix: a producer that finds no free record no longer
 shares one with another producer

---
 src/ringbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..dc48c00 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -195,8 +195,8 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 			break;
 	}
 
-	/* Register this worker-record. */
-	return w;
+	/* Register this worker-record, if one was acquired. */
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From af2fc4dbca367069bdb003f75bd500da5122af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 23/45] fix: destroying a thread pool that is shutting down
 does not keep its lock

---
 src/pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..5e6cfc1 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -232,6 +232,9 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            if (pthread_mutex_unlock(&(pool->lock)) != 0) {
+                err = threadpool_lock_failure;
+            }
             break;
         }
 
-- 
2.43.0


From 754c45f2b225974fa200ce3f30f0f8c1af314cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 24/45] fix: a block that cannot be resized is kept for
 plugins, and impossible sizes are refused

---
 src/alloc.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/alloc.c b/src/alloc.c
index 5cf785c..7f7ffae 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>             /* atoi, malloc, free, realloc */
+#include <stdint.h>             /* PTRDIFF_MAX */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen */
 
 #include "alloc.h"
@@ -32,7 +33,7 @@ void *WSS_copy(void *ptr, size_t size) {
 void *WSS_malloc(size_t size) {
 	void *buffer;
 
-    if ( unlikely(size == 0) ) {
+    if ( unlikely(size == 0 || size > PTRDIFF_MAX) ) {
         return NULL;
     }
 
@@ -62,7 +63,7 @@ void *WSS_malloc(size_t size) {
 void *WSS_calloc(size_t memb, size_t size) {
 	void *buffer;
 
-    if ( unlikely(size == 0 || memb == 0) ) {
+    if ( unlikely(size == 0 || memb == 0 || size > PTRDIFF_MAX / memb) ) {
         return NULL;
     }
 
@@ -98,6 +99,13 @@ void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize) {
         return NULL;
     }
     
+    if ( unlikely(newSize > PTRDIFF_MAX) ) {
+        if ( likely(ptr != NULL) ) {
+            WSS_free(ptr);
+        }
+        return NULL;
+    }
+
     if ( unlikely(ptr == NULL) ) {
 #ifdef USE_RPMALLOC
         if ( unlikely(NULL == (buffer = rprealloc(NULL, newSize))) ) {
@@ -139,7 +147,21 @@ void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize) {
  * @return 		    [void *] 	"Returns pointer to allocated memory if successful, otherwise NULL"
  */
 void *WSS_realloc_normal(void *ptr, size_t newSize) {
-    return WSS_realloc(&ptr, newSize, newSize);
+    if ( unlikely(newSize == 0) ) {
+        WSS_free(&ptr);
+        return NULL;
+    }
+
+    if ( unlikely(newSize > PTRDIFF_MAX) ) {
+        return NULL;
+    }
+
+    // As for realloc(3), the memory is left alone if it cannot be resized
+#ifdef USE_RPMALLOC
+    return rprealloc(ptr, newSize);
+#else
+    return realloc(ptr, newSize);
+#endif
 }
 
 #ifndef NDEBUG
-- 
2.43.0


From c1e1f0a66d1f99278bb816e1a31bfff7bad65ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 25/45] fix: extensions are undone in the reverse order of the
 one they were applied in

---
 src/worker.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index be455d9..3dc90d7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1436,8 +1436,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_trace("Applying %d extensions on input", session->header->ws_extensions_count);
 
-            // Apply extensions to collection of frames (message)
-            for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
+            // Apply extensions to collection of frames (message). The client
+            // applied them in the negotiated order, hence they are undone in
+            // the reverse order
+            for (j = session->header->ws_extensions_count; likely(j-- > 0);) {
                 // Apply extension perframe
                 for (k = 0; likely(k < len); k++) {
                     session->header->ws_extensions[j]->ext->inframe(
-- 
2.43.0


From 2a33bb4f21a9742b1f3f6bf18e8b6057e60c9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 26/45] fix: do not read past the end of a truncated JSON
 literal

---
 src/json.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json.c b/src/json.c
index 94dfd07..1ede5ad 100644
--- a/src/json.c
+++ b/src/json.c
@@ -599,7 +599,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 't':
 
-                        if ((end - state.ptr) < 3 || *(++ state.ptr) != 'r' ||
+                        if ((end - state.ptr) <= 3 || *(++ state.ptr) != 'r' ||
                             *(++ state.ptr) != 'u' || *(++ state.ptr) != 'e')
                         {
                            goto e_unknown_value;
@@ -615,7 +615,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 'f':
 
-                        if ((end - state.ptr) < 4 || *(++ state.ptr) != 'a' ||
+                        if ((end - state.ptr) <= 4 || *(++ state.ptr) != 'a' ||
                             *(++ state.ptr) != 'l' || *(++ state.ptr) != 's' ||
                             *(++ state.ptr) != 'e')
                         {
@@ -630,7 +630,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 'n':
 
-                        if ((end - state.ptr) < 3 || *(++ state.ptr) != 'u' ||
+                        if ((end - state.ptr) <= 3 || *(++ state.ptr) != 'u' ||
                             *(++ state.ptr) != 'l' || *(++ state.ptr) != 'l')
                         {
                            goto e_unknown_value;
-- 
2.43.0


From f1dc92b6982408d8ac43f8db3f548087f3b4385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 27/45] fix: decode surrogate pairs above U+1FFFF in JSON
 strings

---
 src/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.c b/src/json.c
index 1ede5ad..7406c50 100644
--- a/src/json.c
+++ b/src/json.c
@@ -328,7 +328,7 @@ if ((uchar & 0xF800) == 0xD800) {
                         uc_b2 = (uc_b3 << 4) | uc_b4;
                         uchar2 = (uc_b1 << 8) | uc_b2;
 
-                        uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                        uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                     }
 
                     if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From 9cda83819394a13392630d71f528f57097019e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 28/45] fix: look settings up among the members of their own
 object only

---
 src/json.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/json.c b/src/json.c
index 7406c50..b6d99ce 100644
--- a/src/json.c
+++ b/src/json.c
@@ -1023,7 +1023,6 @@ void json_value_free (json_value * value)
 json_value * json_value_find (json_value * parent, char * name)
 {
     unsigned int i;
-    json_value * t;
 
     if (parent == NULL)
         return NULL;
@@ -1033,15 +1032,6 @@ json_value * json_value_find (json_value * parent, char * name)
         {
             if (!strcmp (parent->u.object.values[i].name, name))
                 return parent->u.object.values[i].value;
-            if ((t = json_value_find(parent->u.object.values[i].value, name)) != NULL)
-                return t;
-        }
-
-    if (parent->type == json_array)
-        for (i = 0; i < parent->u.array.length; i++)
-        {
-            if ((t = json_value_find(parent->u.array.values[i], name)) != NULL)
-                return t;
         }
 
     return NULL;
-- 
2.43.0


From af4eb7503249f52020f1b3056f626c954d08ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 29/45] fix: read JSON numbers with many digits

---
 src/json.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/json.c b/src/json.c
index b6d99ce..a7bfcf3 100644
--- a/src/json.c
+++ b/src/json.c
@@ -217,7 +217,8 @@ static const long
    flag_num_e_got_sign   = 1 << 11,
    flag_num_e_negative   = 1 << 12,
    flag_line_comment     = 1 << 13,
-   flag_block_comment    = 1 << 14;
+   flag_block_comment    = 1 << 14,
+   flag_num_big          = 1 << 15;
 
 json_value * json_parse_ex (json_settings * settings,
                             const json_char * json,
@@ -229,8 +230,8 @@ json_value * json_parse_ex (json_settings * settings,
    json_value * top, * root, * alloc = 0;
    json_state state = { 0 };
    long flags;
-   long num_digits = 0, num_e = 0;
-   json_int_t num_fraction = 0;
+   long num_digits = 0;
+   double num_e = 0, num_fraction = 0;
 
    /* Skip UTF-8 BOM
     */
@@ -669,7 +670,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                            flags &= ~ (flag_num_negative | flag_num_e |
                                         flag_num_e_got_sign | flag_num_e_negative |
-                                           flag_num_zero);
+                                           flag_num_zero | flag_num_big);
 
                            num_digits = 0;
                            num_fraction = 0;
@@ -767,10 +768,25 @@ if ((uchar & 0xF800) == 0xD800) {
                         continue;
                      }
 
+                     if (top->u.integer > (INT64_MAX - (b - '0')) / 10)
+                     {
+                        /* does not fit into an integer */
+                        top->type = json_double;
+                        top->u.dbl = ((double) top->u.integer * 10) + (b - '0');
+                        flags |= flag_num_big;
+                        continue;
+                     }
+
                      top->u.integer = (top->u.integer * 10) + (b - '0');
                      continue;
                   }
 
+                  if (flags & flag_num_big)
+                  {
+                     top->u.dbl = (top->u.dbl * 10) + (b - '0');
+                     continue;
+                  }
+
                   num_fraction = (num_fraction * 10) + (b - '0');
                   continue;
                }
@@ -787,17 +803,21 @@ if ((uchar & 0xF800) == 0xD800) {
                      continue;
                   }
                }
-               else if (b == '.' && top->type == json_integer)
+               else if (b == '.' && (top->type == json_integer || flags & flag_num_big))
                {
                   if (!num_digits)
                   {  sprintf (error, "%u:%u: Expected digit before `.`", line_and_col);
                      goto e_failed;
                   }
 
-                  top->type = json_double;
-                  top->u.dbl = (double) top->u.integer;
+                  if (! (flags & flag_num_big))
+                  {
+                     top->type = json_double;
+                     top->u.dbl = (double) top->u.integer;
+                  }
 
                   num_digits = 0;
+                  flags &= ~ flag_num_big;
                   continue;
                }
 
@@ -824,7 +844,7 @@ if ((uchar & 0xF800) == 0xD800) {
                      }
 
                      num_digits = 0;
-                     flags &= ~ flag_num_zero;
+                     flags &= ~ (flag_num_zero | flag_num_big);
 
                      continue;
                   }
@@ -836,7 +856,7 @@ if ((uchar & 0xF800) == 0xD800) {
                      goto e_failed;
                   }
 
-                  top->u.dbl *= pow (10.0, (double)
+                  top->u.dbl *= pow (10.0, 
                       (flags & flag_num_e_negative ? - num_e : num_e));
                }
 
-- 
2.43.0


From 0eb0071cb374bec1c5478b662147e8479b8cf334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 30/45] fix: a configuration key that only starts like a list's
 is another key

---
 src/config.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config.c b/src/config.c
index 767fff8..efba446 100644
--- a/src/config.c
+++ b/src/config.c
@@ -132,7 +132,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 value = config->data->u.object.values[i].value;
                 name = config->data->u.object.values[i].name;
 
-                if ( strncmp(name, "hosts", 5) == 0 ) {
+                if ( strcmp(name, "hosts") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -160,7 +160,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->hosts_length = length;
                     }
-                } else if ( strncmp(name, "origins", 7) == 0 ) {
+                } else if ( strcmp(name, "origins") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -188,7 +188,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->origins_length = length;
                     }
-                } else if ( strncmp(name, "paths", 7) == 0 ) {
+                } else if ( strcmp(name, "paths") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -216,7 +216,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->paths_length = length;
                     }
-                } else if ( strncmp(name, "queries", 7) == 0 ) {
+                } else if ( strcmp(name, "queries") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -244,7 +244,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->queries_length = length;
                     }
-                } else if ( strncmp(name, "setup", 5) == 0 && likely(value->type == json_object) ) {
+                } else if ( strcmp(name, "setup") == 0 && likely(value->type == json_object) ) {
                     if ( (val = json_value_find(value, "subprotocols")) != NULL ) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
-- 
2.43.0


From 85fdc3b44aba8ceef3dac9a49c1751fac6563c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 31/45] fix: repeated lists in the configuration are not leaked

---
 src/config.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index efba446..d44f21c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -135,10 +135,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 if ( strcmp(name, "hosts") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
+                        WSS_free((void **) &config->hosts);
 
                         if (length == 0) {
                             config->hosts_length = length;
-                            config->hosts = NULL;
                             continue;
                         }
 
@@ -163,10 +163,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 } else if ( strcmp(name, "origins") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
+                        WSS_free((void **) &config->origins);
 
                         if (length == 0) {
                             config->origins_length = length;
-                            config->origins = NULL;
                             continue;
                         }
 
@@ -191,10 +191,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 } else if ( strcmp(name, "paths") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
+                        WSS_free((void **) &config->paths);
 
                         if (length == 0) {
                             config->paths_length = length;
-                            config->paths = NULL;
                             continue;
                         }
 
@@ -219,10 +219,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 } else if ( strcmp(name, "queries") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
+                        WSS_free((void **) &config->queries);
 
                         if (length == 0) {
                             config->queries_length = length;
-                            config->queries = NULL;
                             continue;
                         }
 
@@ -248,6 +248,8 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     if ( (val = json_value_find(value, "subprotocols")) != NULL ) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
+                            WSS_free((void **) &config->subprotocols);
+                            WSS_free((void **) &config->subprotocols_config);
 
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->subprotocols = WSS_calloc(length, sizeof(char *)))) ) {
@@ -302,6 +304,8 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     if ( (val = json_value_find(value, "extensions")) != NULL ) {
                         if ( likely(val->type == json_array) ) {
                             length = val->u.array.length;
+                            WSS_free((void **) &config->extensions);
+                            WSS_free((void **) &config->extensions_config);
 
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->extensions = WSS_calloc(length, sizeof(char *)))) ) {
-- 
2.43.0


From e1aed98dbcc94f70ad870588087968687839888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 32/45] fix: the workers of both servers are stopped before
 either server is freed

---
 include/http.h |  8 ++++++++
 src/http.c     | 25 ++++++++++++++++++++++---
 src/server.c   |  9 +++++++++
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/http.h b/include/http.h
index ce42472..4c22224 100644
--- a/include/http.h
+++ b/include/http.h
@@ -24,6 +24,14 @@ wss_error_t WSS_http_regex_init(wss_server_t *server);
  */
 wss_error_t WSS_http_server(wss_server_t *server);
 
+/**
+ * Function that stops the workers of the http server.
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_stop(wss_server_t *server);
+
 /**
  * Function that free op space allocated for the http server and closes the
  * filedescriptors in use..
diff --git a/src/http.c b/src/http.c
index b95a1e5..e93be1f 100644
--- a/src/http.c
+++ b/src/http.c
@@ -245,13 +245,12 @@ wss_error_t WSS_http_server(wss_server_t *server) {
 }
 
 /**
- * Function that free op space allocated for the http server and closes the
- * filedescriptors in use..
+ * Function that stops the workers of the http server.
  *
  * @param   server	[wss_server_t *] 	"The http server"
  * @return 			[wss_error_t]       "The error status"
  */
-wss_error_t WSS_http_server_free(wss_server_t *server) {
+wss_error_t WSS_http_server_stop(wss_server_t *server) {
     int err;
     int res = WSS_SUCCESS;
 
@@ -294,6 +293,26 @@ wss_error_t WSS_http_server_free(wss_server_t *server) {
                         break;
                 }
             }
+            server->pool = NULL;
+        }
+    }
+
+    return res;
+}
+
+/**
+ * Function that free op space allocated for the http server and closes the
+ * filedescriptors in use..
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_free(wss_server_t *server) {
+    int res = WSS_SUCCESS;
+
+    if ( likely(NULL != server) ) {
+        if ( likely(NULL != server->pool) ) {
+            res = WSS_http_server_stop(server);
         }
 
         if ( NULL != server->re ) {
diff --git a/src/server.c b/src/server.c
index 74c00fd..b5bc404 100644
--- a/src/server.c
+++ b/src/server.c
@@ -571,6 +571,15 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
+    // A worker of one server may send messages to the clients of the other
+    if ( unlikely(WSS_http_server_stop(http) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( ssl && unlikely(WSS_http_server_stop(https) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 22345119b91ad7a48afe22b21c7691003505587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 33/45] fix: a client that never pauses is served within the
 configured limits

---
 include/ssl.h |  9 +++++++++
 src/ssl.c     | 17 +++++++++++++++++
 src/worker.c  |  7 ++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/ssl.h b/include/ssl.h
index 6e55b39..d52603f 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -63,6 +63,15 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session);
  */
 int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer);
 
+/**
+ * Function that tells whether data, that was already received from the
+ * connecting client, is still to be read from its ssl session.
+ *
+ * @param   session     [wss_session_t *]   "The connecting client session"
+ * @return              [bool]
+ */
+bool WSS_ssl_pending(wss_session_t *session);
+
 /**
  * Function that performs a ssl write to the connecting client.
  *
diff --git a/src/ssl.c b/src/ssl.c
index 00bebf8..9dfa518 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -405,6 +405,23 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
 #endif
 }
 
+/**
+ * Function that tells whether data, that was already received from the
+ * connecting client, is still to be read from its ssl session.
+ *
+ * @param   session     [wss_session_t *]   "The connecting client session"
+ * @return              [bool]
+ */
+bool WSS_ssl_pending(wss_session_t *session) {
+#if defined(USE_OPENSSL)
+    return SSL_has_pending(session->ssl);
+#elif defined(USE_WOLFSSL)
+    return wolfSSL_pending(session->ssl) > 0;
+#else
+    return false;
+#endif
+}
+
 /**
  * Function that performs a ssl write to the connecting client.
  *
diff --git a/src/worker.c b/src/worker.c
index 3dc90d7..6ac36d2 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1138,7 +1138,12 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 memset(buffer, '\0', server->config->size_buffer);
 
         }
-    } while ( likely(n != 0) );
+
+        // A frame within the limit is completed at some point, hence a client
+        // that never pauses is served before more of its data is read. What an
+        // ssl session has received must be read, as it is not notified again.
+    } while ( likely(n != 0 && (payload_length <= server->config->size_frame ||
+                    (NULL != session->ssl && WSS_ssl_pending(session)))) );
 
     // Release memory used for buffer
     WSS_free((void **) &buffer);
-- 
2.43.0


From 6d3669f9f89ec2791633e40f7cf5d594d7baac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 34/45] fix: a client that no subprotocol can serve is refused
 instead of being disconnected without an answer

---
 src/worker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 6ac36d2..2218911 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -910,6 +910,13 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     // Create Upgrade HTTP header based on clients header
     code = WSS_upgrade_header(header, server->config, server->re);
+
+    // Echo serves clients that chose no subprotocol, unless it is not loaded
+    if ( likely(code == HttpStatus_SwitchingProtocols) && NULL == header->ws_protocol && unlikely(NULL == WSS_find_subprotocol("echo")) ) {
+        WSS_log_trace("Rejecting HTTP request as no subprotocol is available to serve the client");
+        code = HttpStatus_BadRequest;
+    }
+
     switch (code) {
         case HttpStatus_UpgradeRequired:
             WSS_log_trace("Rejecting HTTP request as the service requires use of the Websocket protocol.");
-- 
2.43.0


From 22bb2fb4224b0eab4299c9fdb9495f9dd6df0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 35/45] fix: a client that cannot be served for lack of memory
 no longer leaves others that wait to be accepted unserved

---
 src/worker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 2218911..207ae24 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -581,7 +581,7 @@ void WSS_connect(wss_server_t *server) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
             pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
 
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
@@ -589,7 +589,7 @@ void WSS_connect(wss_server_t *server) {
             WSS_free((void **)&ringbuf);
             pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
-            return;
+            continue;
         }
         session->messages_count = server->config->size_ringbuffer;
 
-- 
2.43.0


From ecd7e4f54cb6f0ea1e2fa1c9a9e8ab6af1e8eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 36/45] fix: a client whose answer cannot be created for lack
 of memory is disconnected instead of waiting forever

---
 src/worker.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 207ae24..b91e966 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -800,6 +800,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                     session->state = WRITING;
                     session->event = READ;
                     WSS_write(server, session);
+                } else {
+                    session->closing = true;
                 }
 
                 return;
@@ -832,6 +834,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                         session->state = WRITING;
                         session->event = READ;
                         WSS_write(server, session);
+                    } else {
+                        session->closing = true;
                     }
 
                     return;
@@ -869,6 +873,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             session->state = WRITING;
             session->event = READ;
             WSS_write(server, session);
+        } else {
+            session->closing = true;
         }
 
         return;
@@ -887,6 +893,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 session->state = WRITING;
                 session->event = READ;
                 WSS_write(server, session);
+            } else {
+                session->closing = true;
             }
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
@@ -900,6 +908,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 session->state = WRITING;
                 session->event = READ;
                 WSS_write(server, session);
+            } else {
+                session->closing = true;
             }
         }
 
-- 
2.43.0


From 6bed915bd91e63ffdfa845efe8d1bf7bacdc2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 37/45] fix: running out of memory while frames are read
 neither crashes the server nor leaks the frames

---
 src/worker.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index b91e966..ab19380 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1044,6 +1044,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     bool closing = false;
     size_t offset = 0, prev_offset = 0;
     wss_frame_t **frames = NULL;
+    wss_frame_t **more;
     char *payload = NULL;
     size_t payload_length = 0;
     size_t frames_length = 0;
@@ -1304,14 +1305,16 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_pong_frame(frame);
         }
 
-        if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
+        if ( unlikely(NULL == frame || NULL == (more = WSS_realloc_normal(frames,
                         (frames_length+1)*sizeof(wss_frame_t *)))) ) {
             WSS_log_error("Unable to reallocate frames");
             WSS_free_frame(frame);
             WSS_free((void **) &payload);
+            free_frames(frames, frames_length);
             session->closing = true;
             return;
         }
+        frames = more;
         frames[frames_length] = frame;
         frames_length += 1;
 
@@ -1325,6 +1328,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
+
+            if ( unlikely(NULL == frame) ) {
+                WSS_log_error("Unable to create closing frame");
+                WSS_free((void **) &payload);
+                free_frames(frames, frames_length);
+                session->closing = true;
+                return;
+            }
         } else
 
         // A continuation of a completed message does not belong to any message
@@ -1446,6 +1457,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Sending message to subprotocol and sending it to the filedescriptors
     // returned by the subprotocol.
     for (i = 0; likely(i < frames_length); i++) {
+        // The closing frame of a failed connection could not be created
+        if ( unlikely(NULL == frames[i]) ) {
+            WSS_log_error("Unable to create closing frame");
+            free_frames(frames, frames_length);
+            session->closing = true;
+            return;
+        }
+
         // If message consists of single frame or we have the starting frame of
         // a multiframe message, store the starting index
         if ( (frames[i]->fin && !(frames[i]->opcode == 0x0)) ||
@@ -1521,6 +1540,15 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 }
                 frames[starting_frame] = WSS_closing_frame(code, NULL);
                 frames_length = starting_frame+1;
+
+                if ( unlikely(NULL == frames[starting_frame]) ) {
+                    WSS_log_error("Unable to create closing frame");
+                    WSS_free((void **) &msg);
+                    free_frames(frames, frames_length);
+                    session->closing = true;
+                    return;
+                }
+
                 i = starting_frame;
                 len = 1;
                 WSS_free((void **) &msg);
-- 
2.43.0


From bf9017c745324938f7c9883b78339d9521cd91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 38/45] fix: a client that misses a message for lack of memory
 is disconnected instead of silently missing it

---
 src/message.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 893bff8..c663759 100644
--- a/src/message.c
+++ b/src/message.c
@@ -132,6 +132,18 @@ static bool await_space(wss_server_t *server, wss_session_t *session, unsigned i
     return true;
 }
 
+/**
+ * Function that disconnects a session, which would otherwise silently miss a
+ * message.
+ *
+ * @param   session     [wss_session_t *]   "The session"
+ * @return              [void]
+ */
+static void abandon(wss_session_t *session) {
+    session->closing = true;
+    shutdown(session->fd, SHUT_RDWR);
+}
+
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     char *out;
@@ -146,6 +158,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
         WSS_log_error("Unable to allocate message structure");
 
+        abandon(session);
         WSS_session_jobs_dec(session);
 
         return;
@@ -170,10 +183,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         if ( unlikely(! await_space(server, session, &attempts)) ) {
             WSS_log_error("Failed to acquire space in ringbuffer");
 
-            // The session would silently miss a message, hence it is disconnected
-            session->closing = true;
-            shutdown(session->fd, SHUT_RDWR);
-
+            abandon(session);
             WSS_message_free(m);
             WSS_session_jobs_dec(session);
 
@@ -200,6 +210,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     // The message is left empty if the frames can not be converted
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
+
+        abandon(session);
     } else {
         m->msg = out;
         m->length = out_length;
@@ -238,6 +250,12 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
     if ( unlikely(0 == frames_count) ) {
         WSS_log_error("Unable to create frames of message");
+
+        // The message is left out due to lack of memory
+        if ( likely(NULL != message || message_length == 0) ) {
+            abandon(session);
+        }
+
         WSS_session_jobs_dec(session);
         return;
     }
-- 
2.43.0


From 0de0902bad0b28d768713b55e63eda069f20209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 39/45] fix: running out of memory while extensions are opened
 neither crashes the server nor leaks them

---
 src/header.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index c7b7bc4..f5a393e 100644
--- a/src/header.c
+++ b/src/header.c
@@ -131,6 +131,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     char *token, *name; 
     wss_subprotocol_t *proto;
     wss_extension_t *ext;
+    wss_ext_t **ws_extensions;
     char *exts = NULL;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
@@ -406,13 +407,23 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     accepted = NULL;
                     ext->open(fd, trim(paramptr), &accepted, &valid);
                     if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
+                        // The extensions opened so far must be kept in order to be closed
+                        if ( unlikely(NULL == (ws_extensions = WSS_realloc_normal(header->ws_extensions, (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
                             WSS_log_error("Unable to allocate space for extension");
+                            ext->close(fd);
+                            WSS_free((void **) &accepted);
+                            WSS_free((void **) &name);
+                            WSS_free((void **)&exts);
                             return HttpStatus_InternalServerError;
                         }
+                        header->ws_extensions = ws_extensions;
 
                         if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
                             WSS_log_error("Unable to allocate space for extension structure");
+                            ext->close(fd);
+                            WSS_free((void **) &accepted);
+                            WSS_free((void **) &name);
+                            WSS_free((void **)&exts);
                             return HttpStatus_InternalServerError;
                         }
                         header->ws_extensions[header->ws_extensions_count]->ext = ext;
-- 
2.43.0


From 39fa282eb5b08208980afd06b24bea5aa7ee6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 40/45] fix: the BIOs are released if the accept key cannot be
 allocated

---
 src/ssl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ssl.c b/src/ssl.c
index 9dfa518..8636072 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -795,6 +795,7 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
 
     acceptKeyLength = mem_bio_mem_ptr->length;
     if ( unlikely(NULL == (*accept_key = WSS_malloc(acceptKeyLength))) ) {
+        BIO_free_all(b64_bio);
         return 0;
     }
     memcpy(*accept_key, (*mem_bio_mem_ptr).data, acceptKeyLength);
-- 
2.43.0


From 88283ef293a460af4c29c038fee1c2622f387169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:02 +0000
Subject: [PATCH 41/45] fix: a message that cannot be (de)compressed for lack
 of memory no longer corrupts it or the following ones

---
 .../permessage-deflate/permessage-deflate.c   | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 0cd4d9b..46355d4 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -596,8 +596,6 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
         return;
     }
 
-    // unset rsv1 bit
-    frames[0]->rsv1 = false;
     current_length = 0;
 
     // Reallocate application data to contain the decompressed data in the same
@@ -621,6 +619,9 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
         frames[j]->payloadLength = size;
     }
 
+    // unset rsv1 bit, unless the message is incomplete due to lack of memory
+    frames[0]->rsv1 = false;
+
     allocs.free(message);
 }
 
@@ -732,7 +733,9 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         message = deflate_all(comp, Z_FULL_FLUSH, message, &message_length);
     }
 
+    // The message is sent uncompressed, and the following ones must not refer to it
     if ( unlikely(NULL == message) ) {
+        (void)deflateReset(&comp->compressor);
         return;
     }
 
@@ -744,13 +747,28 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         message_length -= 4;
     }
 
+    // Reallocate application data to contain the compressed data in the same
+    // amount of frames. The frames are left alone until there is room in all.
+    for (j = 0; likely(j < len); j++) {
+        if ( likely(j+1 != len) ) {
+            size = message_length/len;
+        } else {
+            size = message_length-(message_length/len)*j;
+        }
+
+        if ( unlikely(NULL == (copy = allocs.realloc(frames[j]->payload, (size > frames[j]->payloadLength ? size : frames[j]->payloadLength)+1))) ) {
+            allocs.free(message);
+            (void)deflateReset(&comp->compressor);
+            return;
+        }
+        frames[j]->payload = copy;
+    }
+
     // set rsv1 bit
     frames[0]->rsv1 = true;
 
     current_length = 0;
 
-    // Reallocate application data to contain the compressed data in the same
-    // amount of frames
     for (j = 0; likely(j < len); j++) {
         if ( likely(j+1 != len) ) {
             size = message_length/len;
@@ -758,11 +776,6 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
             size = message_length-current_length;
         }
 
-        if ( unlikely(NULL == (copy = allocs.realloc(frames[j]->payload, size+1))) ) {
-            allocs.free(message);
-            return;
-        }
-        frames[j]->payload = copy;
         memcpy(frames[j]->payload, message+current_length, size);
         current_length += size;
         frames[j]->extensionDataLength = 0;
-- 
2.43.0


From a74d50878f6cd08a5fbd414054e15a9ff9cb13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 42/45] fix: a server that cannot start stops what already runs
 before freeing it, and does not close descriptor 0

---
 src/server.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/server.c b/src/server.c
index b5bc404..3602ad1 100644
--- a/src/server.c
+++ b/src/server.c
@@ -305,6 +305,38 @@ static int WSS_server_free(wss_server_t *server) {
     return result;
 }
 
+/**
+ * Stops the instances that already run when the server is unable to start.
+ *
+ * @param   http    [wss_server_t *] "The http instance"
+ * @param   https   [wss_server_t *] "The https instance or NULL if it does not run"
+ * @return 	        [void]
+ */
+static void WSS_server_abort(wss_server_t *http, wss_server_t *https) {
+    int n;
+
+    WSS_server_set_state(HALT_ERROR);
+
+    do {
+        n = write(close_pipefd[1], "HALT", 5);
+    } while ( unlikely(n < 0 && errno == EINTR) );
+
+    pthread_join(http->thread_id, NULL);
+    if (NULL != https) {
+        pthread_join(https->thread_id, NULL);
+    }
+
+    // A worker of one server may send messages to the clients of the other
+    WSS_http_server_stop(http);
+    if (NULL != https) {
+        WSS_http_server_stop(https);
+        WSS_poll_close(https);
+    }
+    WSS_poll_close(http);
+
+    WSS_session_delete_all();
+}
+
 /**
  * Starts the websocket server.
  *
@@ -480,6 +512,7 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
         if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
+            WSS_server_abort(http, NULL);
             WSS_server_free(http);
             WSS_session_destroy_lock();
             WSS_destroy_subprotocols();
@@ -492,12 +525,15 @@ int WSS_server_start(wss_config_t *config) {
         }
 
         servers.https = https;
+        https->fd = -1;
+        https->poll_fd = -1;
 
         WSS_log_trace("Creating HTTPS Instance");
 
         https->config = config;
         https->port   = config->port_https;
         if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
+            WSS_server_abort(http, NULL);
             WSS_server_free(https);
             WSS_server_free(http);
             WSS_session_destroy_lock();
@@ -511,6 +547,7 @@ int WSS_server_start(wss_config_t *config) {
         }
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
+            WSS_server_abort(http, NULL);
             WSS_server_free(https);
             WSS_server_free(http);
             WSS_session_destroy_lock();
@@ -527,6 +564,7 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("Creating HTTP cleanup thread");
     
     if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
+        WSS_server_abort(http, https);
         if (ssl) {
             WSS_server_free(https);
         }
-- 
2.43.0


From c3322580660a6f9af0036880b33fb65ec33c52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 43/45] fix: a configuration that cannot be parsed for lack of
 memory no longer crashes the parser

---
 src/json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json.c b/src/json.c
index a7bfcf3..dd2c318 100644
--- a/src/json.c
+++ b/src/json.c
@@ -125,6 +125,7 @@ static int new_value (json_state * state,
             if (! (value->u.array.values = (json_value **) json_alloc
                (state, value->u.array.length * sizeof (json_value *), 0)) )
             {
+               value->u.array.length = 0;
                return 0;
             }
 
@@ -141,6 +142,7 @@ static int new_value (json_state * state,
             if (! (value->u.object.values = (json_object_entry *) json_alloc
                   (state, values_size + ((unsigned long) value->u.object.values), 0)) )
             {
+               value->u.object.length = 0;
                return 0;
             }
 
-- 
2.43.0


From 0f0f324fc6a6e8d76c164ef0297b96ea5a80bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 44/45] fix: a server without memory for its request patterns
 does not start instead of crashing or admitting every path

---
 src/http.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/http.c b/src/http.c
index e93be1f..aaabc9b 100644
--- a/src/http.c
+++ b/src/http.c
@@ -27,9 +27,10 @@
  * @param   config    [wss_config_t *]  "The configuration of the server"
  * @param   ssl       [bool]            "Whether server uses SSL"
  * @param   port      [int]             "The server port"
- * @return            [char *]          "The request uri regex pattern"
+ * @param   pattern   [char **]         "Is set to the request uri regex pattern or NULL if there is none"
+ * @return            [wss_error_t]     "The error status"
  */
-static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
+static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int port, char **pattern) {
     int i, j, k;
     size_t iw = 0, jw = 0, kw = 0;
     size_t request_uri_length = 0;
@@ -42,6 +43,8 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     char *query = "";
     char *s = "";
 
+    *pattern = NULL;
+
     for (i = 0; i < config->hosts_length; i++) {
         sum_host_length += strlen(config->hosts[i]); 
     }
@@ -58,7 +61,7 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     sum_query_length += MAX(config->queries_length-1, 0);
 
     if (sum_host_length+sum_path_length+sum_query_length == 0) {
-        return NULL;
+        return WSS_SUCCESS;
     }
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
@@ -68,22 +71,36 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     request_uri_length += sum_path_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
-    request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char));
+    if ( unlikely(NULL == (request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char)))) ) {
+        return WSS_MEMORY_ERROR;
+    }
 
     if (ssl) {
         s = "s";
     }
 
     if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
-        return NULL;
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
-        return NULL;
+        if (sum_host_length > 0) {
+            WSS_free((void **) &host);
+        }
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
-        return NULL;
+        if (sum_path_length > 0) {
+            WSS_free((void **) &path);
+        }
+        if (sum_host_length > 0) {
+            WSS_free((void **) &host);
+        }
+        WSS_free((void **) &request_uri);
+        return WSS_MEMORY_ERROR;
     }
 
     for (i = 0; likely(i < config->hosts_length); i++) {
@@ -130,7 +147,9 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         WSS_free((void **) &query);
     }
 
-    return request_uri;
+    *pattern = request_uri;
+
+    return WSS_SUCCESS;
 }
 
 /**
@@ -149,7 +168,10 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         ssl = true;
     }
 
-    request_uri = generate_request_uri(server->config, ssl, server->port);
+    if ( unlikely(WSS_SUCCESS != (err = generate_request_uri(server->config, ssl, server->port, &request_uri))) ) {
+        return err;
+    }
+
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
             return WSS_MEMORY_ERROR;
-- 
2.43.0


From 62b369649ec5b210a141d65a4c9a284fa710b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 45/45] fix: an interrupt that arrives while the server starts
 is no longer forgotten

---
 src/server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 3602ad1..95031bb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -490,7 +490,12 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Setting to running state");
 
-    WSS_server_set_state(RUNNING);
+    // An interrupt may have arrived in the meantime
+    pthread_mutex_lock(&state.lock);
+    if ( likely(STARTING == state.state) ) {
+        state.state = RUNNING;
+    }
+    pthread_mutex_unlock(&state.lock);
 
     WSS_log_trace("Creating HTTP Instance");
 
-- 
2.43.0

