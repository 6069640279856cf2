From 04b6eb1ef7ad4cddf5ee5934db5244708917893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 01/19] fix: reserve the actual length of the Date field in
 http_write_response

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..b955851 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + (8 + data_size(date)) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 3e095850efb9ba0bdc19e3195e3fb1e737c5ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 02/19] fix: string_free must release allocated strings that
 are empty

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..5250b8d 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 1c41fb92ae8fad569c4a2036296a2d0ed2085ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 03/19] fix: advance by the bytes written in string_write

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 5250b8d..0fb3bea 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From 34ed0ed4f73269e402dc34deaf08cf560e9cce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 04/19] fix: truncate the file string_save overwrites

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 0fb3bea..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From 8f60e4280f97012704d0628d1109b6d544f95bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 05/19] fix: timer: ignore wake-ups without expirations

A timer re-armed by another handler after the kernel reported it, but before
its callback ran, has no expirations left to read; this aborted the process.
---
 src/reactor/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..96c9702 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,7 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
+  if (!total)
+    return;
   reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
-- 
2.43.0


From a3f94cdc5f6e315f9855f17d3f2b750cadf4d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 06/19] fix: event: deliver every signal

In semaphore mode a read takes only one signal, and as the descriptor is
watched edge-triggered the remaining ones are not reported again.
---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..820e623 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -31,7 +31,7 @@ void event_open(event *event)
 {
   int fd;
 
-  fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
+  fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
   assert(fd != -1);
   descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
 }
-- 
2.43.0


From 815e5b16bc8691f5c15c77334b0e3a947fa024f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 07/19] fix: ignore inotify events that match no watch (queue
 overflow, stale descriptors)

---
 src/reactor/notify.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..fa37caf 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,11 +42,10 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
-      }
+      if (e == list_end(&notify->entries))
+        continue;
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
       reactor_dispatch(&notify->handler, NOTIFY_EVENT, (uintptr_t) &notify_event);
-- 
2.43.0


From 472b3f2506ee9da951797fb0a7c31174940c5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 08/19] fix: forget the watches when notify is cleared, and
 stop delivering

---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index fa37caf..9404484 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -68,6 +68,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -96,9 +102,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From e7083d8824c996a86ebdbb486f0e22f18ed61648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 09/19] fix: stream: transmit all TLS output, not one record
 per wake-up (edge-triggered)

---
 src/reactor/stream.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..0408163 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,13 +135,21 @@ static size_t stream_ssl_read(stream *stream)
 
 static void stream_ssl_flush(stream *stream)
 {
+  char *data = buffer_data(&stream->output);
+  size_t size = buffer_size(&stream->output);
   ssize_t n;
+  size_t total;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  total = 0;
+  do
+  {
+    n = SSL_write(stream->ssl, data + total, size - total);
+    if (n > 0)
+      total += n;
+  } while (n > 0 && total < size);
   stream->ssl_state = SSL_get_error(stream->ssl, n);
+  buffer_erase(&stream->output, 0, total);
 }
 
 static void stream_ssl_callback(reactor_event *event)
-- 
2.43.0


From a86fdfc3ba973a5b94b5a37718dc38eec07b51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 10/19] fix: stream: do not truncate the length of large TLS
 output to int

---
 src/reactor/stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 0408163..4a4e67a 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <limits.h>
 #include <unistd.h>
 #include <errno.h>
 #include <assert.h>
@@ -144,7 +145,7 @@ static void stream_ssl_flush(stream *stream)
   total = 0;
   do
   {
-    n = SSL_write(stream->ssl, data + total, size - total);
+    n = SSL_write(stream->ssl, data + total, size - total > INT_MAX ? INT_MAX : size - total);
     if (n > 0)
       total += n;
   } while (n > 0 && total < size);
-- 
2.43.0


From aae34b653ffba772a1e9f2de952fc84dacb1a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 11/19] fix: stream: a failed write (peer gone) is not fatal

---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 4a4e67a..c750280 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -56,10 +56,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From 491868f6db167958aef54de920071004c2dde3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 12/19] fix: stream: forget the TLS session when the stream is
 closed

---
 src/reactor/stream.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index c750280..d1ab6dd 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -249,8 +249,12 @@ void stream_close(stream *stream)
   if (!descriptor_is_open(&stream->descriptor))
     return;
 
-  if (stream_ssl_activated)
+  if (stream->ssl)
+  {
     SSL_free(stream->ssl);
+    stream->ssl = NULL;
+    stream->ssl_state = 0;
+  }
 
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
-- 
2.43.0


From a69bcdf70eea661b4d47acb778e2de45de2bf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 13/19] fix: keep a server connection open when its pending
 output has been sent

---
 src/reactor/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..42f8d70 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -107,6 +107,8 @@ static void server_request_callback(reactor_event *event)
   case STREAM_READ:
     server_request_update(request);
     break;
+  case STREAM_WRITE:
+    break;
   default:
   case STREAM_CLOSE:
     server_close(request);
-- 
2.43.0


From 56907a4ca3f486a97b3a4f144dfa85ba1aa9b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 14/19] fix: close connections on server shutdown instead of
 dropping references of others

---
 src/reactor/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 42f8d70..befbeea 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -225,7 +225,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_close(request);
     request = next;
   }
 
-- 
2.43.0


From 7c0340333c8e8c419770d761ed2021668a325bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 15/19] fix: stop at the end of the buffer when skipping spaces
 in a request or status line

phr_parse_request and phr_parse_response advanced past runs of spaces without
checking for the end of the buffer.  A head received up to and including such a
space made the parser read beyond the received data, and if what happened to be
there was more spaces it went on parsing stale memory, so that a well-formed
request could be rejected or be answered wrongly depending on how it was split.
---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From a416df69d5de7f442ab241674f578f7da9cf894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 16/19] fix: net_socket used the descriptor of a failed
 socket() call and closed -1

---
 src/reactor/net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..363fde9 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,6 +27,11 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
-- 
2.43.0


From 33ad3dead0f1e0bccae2378010f4a6e9daa6e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 17/19] fix: async_cancel could cancel an unrelated thread when
 its own had ended (the id of a detached thread is reused)

---
 src/reactor/async.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..6753f5a 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -18,6 +18,7 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
+  (void) pthread_detach(async->thread);
   async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
@@ -39,12 +40,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -56,6 +54,7 @@ void async_cancel(async *async)
     if (async->thread)
     {
       (void) pthread_cancel(async->thread);
+      (void) pthread_detach(async->thread);
       async->thread = 0;
     }
   }
-- 
2.43.0


From ffc2b4d091eda75f70e26dcab8f7622a2e6c8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 18/19] fix: resolver ignored the protocol it was asked for

---
 src/reactor/resolver.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reactor/resolver.c b/src/reactor/resolver.c
index 131b4cd..f28e87a 100644
--- a/src/reactor/resolver.c
+++ b/src/reactor/resolver.c
@@ -6,11 +6,16 @@
 static void resolver_callback(reactor_event *event)
 {
   resolver *resolver = event->state;
+  struct addrinfo hints;
 
   switch (event->type)
   {
   case ASYNC_CALL:
-    resolver->addrinfo = net_resolve(resolver->host, resolver->service, resolver->family, resolver->type, resolver->flags);
+    hints = (struct addrinfo) {
+      .ai_family = resolver->family, .ai_socktype = resolver->type, .ai_protocol = resolver->protocol, .ai_flags = resolver->flags
+    };
+    if (getaddrinfo(resolver->host, resolver->service, &hints, &resolver->addrinfo) != 0)
+      resolver->addrinfo = NULL;
     break;
   default:
   case ASYNC_DONE:
-- 
2.43.0


From 609ddf06e2abb45c307dbaf9a7de8de31dfe68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 19/19] fix: http: heads of 2 GiB or more were reported with a
 truncated (negative) length

---
 src/picohttpparser/picohttpparser.c | 16 ++++++++--------
 src/picohttpparser/picohttpparser.h | 10 +++++-----
 src/reactor/http.c                  |  6 ++++--
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 77bd596..5ec6221 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -382,8 +382,8 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     return parse_headers(buf, buf_end, headers, num_headers, max_headers, ret);
 }
 
-int phr_parse_request(const char *buf_start, size_t len, const char **method, size_t *method_len, const char **path,
-                      size_t *path_len, int *minor_version, struct phr_header *headers, size_t *num_headers, size_t last_len)
+ssize_t phr_parse_request(const char *buf_start, size_t len, const char **method, size_t *method_len, const char **path,
+                          size_t *path_len, int *minor_version, struct phr_header *headers, size_t *num_headers, size_t last_len)
 {
     const char *buf = buf_start, *buf_end = buf_start + len;
     size_t max_headers = *num_headers;
@@ -407,7 +407,7 @@ int phr_parse_request(const char *buf_start, size_t len, const char **method, si
         return r;
     }
 
-    return (int)(buf - buf_start);
+    return buf - buf_start;
 }
 
 static const char *parse_response(const char *buf, const char *buf_end, int *minor_version, int *status, const char **msg,
@@ -454,8 +454,8 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     return parse_headers(buf, buf_end, headers, num_headers, max_headers, ret);
 }
 
-int phr_parse_response(const char *buf_start, size_t len, int *minor_version, int *status, const char **msg, size_t *msg_len,
-                       struct phr_header *headers, size_t *num_headers, size_t last_len)
+ssize_t phr_parse_response(const char *buf_start, size_t len, int *minor_version, int *status, const char **msg, size_t *msg_len,
+                           struct phr_header *headers, size_t *num_headers, size_t last_len)
 {
     const char *buf = buf_start, *buf_end = buf + len;
     size_t max_headers = *num_headers;
@@ -477,10 +477,10 @@ int phr_parse_response(const char *buf_start, size_t len, int *minor_version, in
         return r;
     }
 
-    return (int)(buf - buf_start);
+    return buf - buf_start;
 }
 
-int phr_parse_headers(const char *buf_start, size_t len, struct phr_header *headers, size_t *num_headers, size_t last_len)
+ssize_t phr_parse_headers(const char *buf_start, size_t len, struct phr_header *headers, size_t *num_headers, size_t last_len)
 {
     const char *buf = buf_start, *buf_end = buf + len;
     size_t max_headers = *num_headers;
@@ -498,7 +498,7 @@ int phr_parse_headers(const char *buf_start, size_t len, struct phr_header *head
         return r;
     }
 
-    return (int)(buf - buf_start);
+    return buf - buf_start;
 }
 
 enum {
diff --git a/src/picohttpparser/picohttpparser.h b/src/picohttpparser/picohttpparser.h
index 0849f84..c147c6f 100644
--- a/src/picohttpparser/picohttpparser.h
+++ b/src/picohttpparser/picohttpparser.h
@@ -48,15 +48,15 @@ struct phr_header {
 
 /* returns number of bytes consumed if successful, -2 if request is partial,
  * -1 if failed */
-int phr_parse_request(const char *buf, size_t len, const char **method, size_t *method_len, const char **path, size_t *path_len,
-                      int *minor_version, struct phr_header *headers, size_t *num_headers, size_t last_len);
+ssize_t phr_parse_request(const char *buf, size_t len, const char **method, size_t *method_len, const char **path, size_t *path_len,
+                          int *minor_version, struct phr_header *headers, size_t *num_headers, size_t last_len);
 
 /* ditto */
-int phr_parse_response(const char *_buf, size_t len, int *minor_version, int *status, const char **msg, size_t *msg_len,
-                       struct phr_header *headers, size_t *num_headers, size_t last_len);
+ssize_t phr_parse_response(const char *_buf, size_t len, int *minor_version, int *status, const char **msg, size_t *msg_len,
+                           struct phr_header *headers, size_t *num_headers, size_t last_len);
 
 /* ditto */
-int phr_parse_headers(const char *buf, size_t len, struct phr_header *headers, size_t *num_headers, size_t last_len);
+ssize_t phr_parse_headers(const char *buf, size_t len, struct phr_header *headers, size_t *num_headers, size_t last_len);
 
 /* should be zero-filled before start */
 struct phr_chunked_decoder {
diff --git a/src/reactor/http.c b/src/reactor/http.c
index b955851..12c383e 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -43,7 +43,8 @@ ssize_t http_read_request(stream *stream, data *method, data *target, http_field
 
 ssize_t http_read_request_data(data buffer, data *method, data *target, http_field *fields, size_t *fields_count)
 {
-  int n, minor_version;
+  ssize_t n;
+  int minor_version;
 
   n = phr_parse_request(data_base(buffer), data_size(buffer),
                         (const char **) &method->base, &method->size,
@@ -91,7 +92,8 @@ void http_write_request(stream *stream, data method, data target, data host, dat
 
 ssize_t http_read_response(stream *stream, int *status_code, data *status, http_field *fields, size_t *fields_count)
 {
-  int n, minor_version;
+  ssize_t n;
+  int minor_version;
 
   n = phr_parse_response(stream->input.data, stream->input.size, &minor_version, status_code,
                          (const char **) &status->base, &status->size,
-- 
2.43.0

