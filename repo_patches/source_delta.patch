From 0848c1a69e10297096bd7c3240dd963cd8eaea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 01/33] fix: LaG must not lock and return an expired object

The object was locked before its expiration was tested, and locked
objects never expire, so Lock-and-Get resurrected expired or flushed data.
---
 src/memcache/sockets.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..9520e92 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -190,6 +190,9 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                     r.error( binary_status::Locked );
                     return true;
                 }
+                // expiration must be tested before locking because
+                // locked objects never expire.
+                if( obj.expired() ) return false;
                 obj.lock();
                 add_lock(k);
             }
-- 
2.43.0


From 0b96f6dae62b0dc083be19fb80563af8e98b4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 02/33] fix: counter admission test must not wrap around

m_consumption + resources is a 32 bit sum; when it overflowed, Acquire
succeeded beyond the maximum and the consumption was corrupted.
---
 src/counter/object.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..293c41f 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,8 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        // `m_consumption + resources` may wrap around.
+        if( resources > maximum || m_consumption > maximum - resources )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From a0c034c212d7bf687cdd2512fcf9d17eeed5e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 03/33] fix: identify lock owners by connection, not by file
 descriptor

A descriptor is closed early and may be reused by a new client before the
locks of the old connection are released; the new client was then taken
for the owner, and Unlock or Delete by it terminated the server.  The
context was also left stale when the socket was already invalid.
---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  | 12 +++++++-----
 src/memcache/sockets.cpp |  5 +----
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..b30a626 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local const void* g_context = nullptr;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..4d8b11e 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,10 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is in fact the address of the socket object of a client
+// connection.  File descriptors cannot be used because they may be closed
+// and reused before the locks of the closed connection are released.
+extern thread_local const void* g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -145,12 +147,12 @@ public:
             throw std::logic_error(os.str());
         }
         m_unlocker = std::this_thread::get_id();
-        m_lock = -1;
+        m_lock = nullptr;
     }
 
     // Return `true` if this object is locked.
     bool locked() const noexcept {
-        return m_lock != -1;
+        return m_lock != nullptr;
     }
 
     // Return `true` if this object is locked by the current context.
@@ -171,7 +173,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = 1;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    const void* m_lock = nullptr;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 9520e92..cbc9636 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -44,10 +44,7 @@ memcache_socket::memcache_socket(int fd,
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = this;
 
         // load pending data
         if( ! m_pending.empty() ) {
-- 
2.43.0


From 8dcd6e7f68c8c62467f4e77a0d1a2a00585e208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 04/33] fix: close the connection when the client has closed it

When recv returned 0 the socket was never invalidated, so every normal
disconnection leaked a descriptor and a slot of max_connections.
---
 src/counter/sockets.cpp  | 1 +
 src/memcache/sockets.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..286b2be 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,7 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                invalidate_and_close();
                 break;
             }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cbc9636..dde4f80 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -59,6 +59,7 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                invalidate_and_close();
                 break;
             }
 
-- 
2.43.0


From d93e064481aded4d6e8f64a8e783ced5e94e2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 05/33] fix: do not lose a job posted before the worker thread
 starts

run() cleared m_running on entry, erasing the flag set by a post_job()
that came before the new thread was scheduled; the job was never run.
---
 cybozu/worker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..1fae42a 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -76,7 +76,6 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
@@ -87,6 +86,7 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+            m_running.store(false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From 42f56abeeb9198e008c13ca6fb9b4764c8075aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 06/33] fix: do not drop a flush_all requested while GC is
 running

At its end GC unconditionally cleared the flush time, including one that
had been stored after it started.
---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..badc931 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // keep a flush requested while this GC was running.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 0d52d4926f72405123489c41a3c2a9a6935cf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 07/33] fix: binary Flush with zero expiration flushes
 immediately

It was acknowledged, but stored 0 (no flush) as the flush time; it even
cancelled a flush in progress.
---
 src/memcache/memcache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..24bbc80 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -901,6 +901,9 @@ void binary_request::parse() noexcept {
             return; // invalid
         if( extras_len == 4 ) { // yrmcds extension
             m_exptime = binary_exptime(p_extra);
+            // 0 means "now" as in the text protocol.
+            if( m_exptime == 0 )
+                m_exptime = g_current_time.load(relaxed);
         } else {
             m_exptime = g_current_time.load(relaxed);
         }
-- 
2.43.0


From 1c4be6a1d9ae50882baaf52be87dfb7855bf819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 08/33] fix: LaGKQ reports a miss as documented

docs/locking.md: LaGQ and LaGKQ return "not found" if the object is not
found.
---
 src/memcache/sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index dde4f80..ad7da47 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -218,7 +218,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From 44b6628742995130ad52e4989721b13afe2ec911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 09/33] fix: clear errno before strtoull

A stale ERANGE made the valid number 2^64-1 rejected.
---
 src/memcache/memcache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 24bbc80..8fa846f 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -54,6 +54,7 @@ inline UInt to_uint(const char* p, bool& result) {
                    "UInt is larger than unsigned long long" );
     result = false;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
     if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
-- 
2.43.0


From 2abe175843caa93d9dd8bbfc1c5df7bb3392ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 10/33] fix: keep secure_erase after prepend

The buffer swapped in had no erase flag, so the value was released without
being cleared.
---
 src/memcache/object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index b30a626..918527c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -123,7 +123,7 @@ void object::prepend(const char* p, std::size_t len) {
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From 75c2f725121d485219350ea2aca9d74e92ac1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 11/33] fix: replicate flags and expiration of empty objects

A SetQ without data was rejected before its extras were read, hence slaves
stored empty objects with zero flags and without expiration.
---
 src/memcache/memcache.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 8fa846f..25068f1 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -869,10 +869,14 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        // Requests without data are invalid for clients, but the master
+        // replicates empty objects with them.  See repl_recv().
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From 4346a8345713c9c1d9bef68012456b6f697abaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 12/33] fix: slave must not use its socket after the connection
 is lost

When the connection to the master was lost right before the interval
callback, the callback destructed the socket and on_slave_end() used it.
When sending a heartbeat failed, the socket was removed without leaving the
slave mode; the slave never reconnected and used the destructed socket.
---
 src/memcache/handler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..c18bd91 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -171,11 +171,16 @@ bool handler::on_slave_start() {
 void handler::on_slave_interval() {
     // ping to the master
     char c = '\0';
-    m_repl_client_socket->send(&c, sizeof(c), true);
+    if( m_repl_client_socket->send(&c, sizeof(c), true) )
+        return;
+
+    // The connection has been lost.  The socket will be destructed soon.
+    m_repl_client_socket = nullptr;
+    m_reactor.quit();
 }
 
 void handler::on_slave_end() {
-    if( m_repl_client_socket->valid() )
+    if( m_repl_client_socket != nullptr && m_repl_client_socket->valid() )
         m_reactor.remove_resource(*m_repl_client_socket);
 }
 
-- 
2.43.0


From a87d496e7e358a7a039ecfa3cbed41ab3b3f6bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 13/33] fix: do not reuse CAS unique values for re-created
 objects

The value restarted from 1 for every new object, so a stale token could
match an object that had been deleted (or evicted) and stored again.
---
 src/memcache/object.cpp | 10 +++++-----
 src/memcache/object.hpp |  9 ++++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 918527c..2aaa60a 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -61,7 +61,7 @@ void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
     m_flags = flags_;
     m_exptime = exptime;
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     m_data.reset();
 
@@ -81,7 +81,7 @@ void object::set(const char* p, std::size_t len,
 }
 
 void object::append(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -103,7 +103,7 @@ void object::append(const char* p, std::size_t len) {
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -146,7 +146,7 @@ std::uint64_t object::incr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
@@ -166,7 +166,7 @@ std::uint64_t object::decr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 4d8b11e..b7d2c55 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -11,6 +11,7 @@
 #include <cybozu/logger.hpp>
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
@@ -166,12 +167,18 @@ public:
     }
 
 private:
+    // CAS unique values are never reused even if objects are re-created.
+    static std::uint64_t next_cas() noexcept {
+        static std::atomic<std::uint64_t> cas{0};
+        return cas.fetch_add(1, std::memory_order_relaxed) + 1;
+    }
+
     std::size_t m_length;
     cybozu::dynbuf m_data;
     std::unique_ptr<tempfile> m_file;
     std::uint32_t m_flags;
     std::time_t m_exptime;
-    std::uint64_t m_cas = 1;
+    std::uint64_t m_cas = next_cas();
     mutable unsigned int m_gc_old = 0;
     const void* m_lock = nullptr;
     std::thread::id m_unlocker;
-- 
2.43.0


From e600117334bf92b6e3726ecf2769a27c6e0f3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 14/33] fix: releasing zero resources always succeeds for an
 existing counter

docs/counter.md allows zero and only forbids releasing more than acquired.
---
 src/counter/sockets.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 286b2be..fefbc99 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -210,6 +210,8 @@ void counter_socket::on_acquire(const cybozu::hash_key& k, std::uint32_t resourc
 }
 
 bool counter_socket::on_release(const cybozu::hash_key& k, std::uint32_t resources) {
+    if( resources == 0 )
+        return true;
     auto it = m_acquired_resources.find(&k);
     if( it == m_acquired_resources.end() )
         return false;
-- 
2.43.0


From 90c37e3f77d45fb0d7bafff3122b7f74be42b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 15/33] fix: append and prepend respect max_data_size

Objects could grow without limit; beyond 30 MiB slaves could not even
parse them and stored empty objects instead.
---
 src/memcache/sockets.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index ad7da47..c847001 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -351,6 +351,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -378,6 +382,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -678,6 +686,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -700,6 +712,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
-- 
2.43.0


From d7337b5a4d50ed1d57ce1abc9c7664f224f8f26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 16/33] fix: delete must not find expired objects

An object that has expired but not been collected yet was reported
as deleted (or, with a CAS value, as existing) by delete.
---
 src/memcache/sockets.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index c847001..4df911f 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -404,6 +404,13 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -839,6 +846,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From 34b81535ae5d8d72e0eb54ec212b1481cdeb3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 17/33] fix: binary incr/decr with an initial value must create
 over expired objects

An object that has expired but not been collected yet made Increment
and Decrement with an initial value fail with NotFound.
---
 src/memcache/sockets.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 4df911f..36d3b77 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -7,6 +7,7 @@
 
 #include <cstddef>
 #include <cstring>
+#include <string>
 #include <sys/socket.h>
 #include <sys/types.h>
 
@@ -436,7 +437,18 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                // create anew, as if there were no object.
+                const std::string initial = std::to_string(cmd.initial());
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -474,7 +486,18 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                // create anew, as if there were no object.
+                const std::string initial = std::to_string(cmd.initial());
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
-- 
2.43.0


From 84df7bb0608acb2587d891823484c8c30c95a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 18/33] fix: a worker that is busy when stopped must exit

stop() raised m_running while the job was running; the worker cleared it
at the end of the job, read the event and then span forever waiting for
m_running, so the process never ended after SIGTERM.
---
 cybozu/worker.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 1fae42a..bbb994b 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -66,7 +66,7 @@ public:
     //
     // The thread will be joined automatically.
     void stop() {
-        m_exit = true;
+        m_exit.store(true, std::memory_order_release);
         m_running.store(true, std::memory_order_release);
         notify();
         m_thread.join();
@@ -80,9 +80,10 @@ public:
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
+            while( ! m_running.load(std::memory_order_acquire) &&
+                   ! m_exit.load(std::memory_order_acquire) );
 
-            if( m_exit ) return;
+            if( m_exit.load(std::memory_order_acquire) ) return;
 
             m_job(m_buffer);
             m_buffer.reset();
@@ -93,7 +94,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 23c55e578dc909ba0a407d781881e1a4bac9b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 19/33] fix: apply what was received when the connection to the
 master is reset

When the master process died before it read a heartbeat, its kernel reset
the connection; the slave saw an error event and dropped updates that were
already in its receive buffer, although the master had acknowledged them.
---
 src/memcache/sockets.cpp | 18 ++++++++++++++++++
 src/memcache/sockets.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 36d3b77..f3a7d89 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1088,4 +1088,22 @@ bool repl_client_socket::on_readable(int fd) {
     return true;
 }
 
+void repl_client_socket::on_invalidate(int fd) {
+    // The connection may be found lost before everything the master had
+    // sent is read, for instance when the master reset the connection.
+    // Since this node may become the master, apply what was received.
+    while( true ) {
+        char* p = m_recvbuf.prepare(MAX_RECVSIZE);
+        ssize_t n = ::recv(fd, p, MAX_RECVSIZE, MSG_DONTWAIT);
+        if( n == -1 && errno == EINTR )
+            continue;
+        if( n <= 0 )
+            break;
+        m_recvbuf.consume(n);
+        std::size_t c = repl_recv(m_recvbuf.data(), m_recvbuf.size(), m_hash);
+        m_recvbuf.erase(c);
+    }
+    tcp_socket::on_invalidate(fd);
+}
+
 }} // namespace yrmcds::memcache
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..b65144a 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -153,6 +153,7 @@ private:
     cybozu::dynbuf m_recvbuf;
 
     virtual bool on_readable(int) override final;
+    virtual void on_invalidate(int fd) override final;
     virtual bool on_hangup(int) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
         m_reactor->quit();
-- 
2.43.0


From 1317d10c184f832a84cb0739e63fa3d02c7ef787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 20/33] fix: a locked object kept memory_limit from being
 enforced

---
 src/memcache/gc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index badc931..2cdf870 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -115,7 +115,9 @@ void gc_thread::gc() {
         m_used_memory += sizeof(cybozu::hash_key) + k.length() + sizeof(object);
         if( g_config.heap_data_limit() >= obj.size() )
             m_used_memory += obj.size();
-        m_oldest_age = std::max(m_oldest_age, obj.age());
+        // locked objects cannot be evicted, so they do not count.
+        if( ! obj.locked() )
+            m_oldest_age = std::max(m_oldest_age, obj.age());
         m_largest_object_size = std::max(m_largest_object_size, obj.size());
         if( ! m_new_slaves.empty() )
             repl_object(m_new_slaves, k, obj, false);
-- 
2.43.0


From bc53cbdff0c2844ea7d15efc6246e2a8617dad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 21/33] fix: an object could stay on a new slave after it was
 deleted

Jobs begun before a slave joins do not know the slave.  When such a job
(or a running GC) removed an object that other jobs had already sent to
the new slave, the slave was not told and kept the object for ever.

Send nothing to a new slave until all such jobs have ended and its
initial copy starts.
---
 src/memcache/handler.cpp     |  2 ++
 src/memcache/replication.cpp | 12 +++++++++---
 src/memcache/sockets.hpp     | 12 ++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index c18bd91..55808fa 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -128,6 +128,8 @@ void handler::on_master_interval() {
     }
 
     if( gc_ready(g_current_time.load(relaxed)) ) {
+        for( repl_socket* s: m_new_slaves )
+            s->set_ready();
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..6ddf5a2 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -50,8 +50,10 @@ void repl_object(const std::vector<repl_socket*>& slaves,
         {key.data(), key.length()},
         {data.data(), data.size()}
     };
-    for( cybozu::tcp_socket* s: slaves )
+    for( repl_socket* s: slaves ) {
+        if( ! s->ready() ) continue;
         s->sendv(iov, 4, flush);
+    }
 }
 
 void repl_touch(const std::vector<repl_socket*>& slaves,
@@ -65,8 +67,10 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
         {extras, sizeof(extras)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
+    for( repl_socket* s: slaves ) {
+        if( ! s->ready() ) continue;
         s->sendv(iov, 3, true);
+    }
 }
 
 void repl_delete(const std::vector<repl_socket*>& slaves,
@@ -77,8 +81,10 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         {header, sizeof(header)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
+    for( repl_socket* s: slaves ) {
+        if( ! s->ready() ) continue;
         s->sendv(iov, 2, false);
+    }
 }
 
 std::size_t repl_recv(const char* p, std::size_t len,
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index b65144a..78531a3 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -126,6 +126,17 @@ public:
         return addr;
     }
     
+    // Updates are not sent to this slave until its initial copy starts.
+    //
+    // While jobs that do not know this slave may be running, an object sent
+    // to the slave by others could be removed without telling the slave.
+    bool ready() const noexcept {
+        return m_ready.load(std::memory_order_acquire);
+    }
+    void set_ready() noexcept {
+        m_ready.store(true, std::memory_order_release);
+    }
+
     virtual void on_buffer_full() override {
         cybozu::logger::warning()
             << "Replication buffer is full. "
@@ -137,6 +148,7 @@ private:
     std::vector<char> m_recvbuf;
     cybozu::worker::job m_sendjob;
     std::time_t m_last_heartbeat;
+    std::atomic<bool> m_ready{false};
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From 4802b532ede57f517a000a7a65088ff5466f1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 22/33] fix: a number in a text request must be in the request

strtoull skips any white space, also line ends: in "incr k <TAB>" the
number was taken from the next line, or from whatever followed the data
in the receive buffer.
---
 src/memcache/memcache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 25068f1..38ef812 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -8,6 +8,7 @@
 #include <cybozu/util.hpp>
 
 #include <algorithm>
+#include <cctype>
 #include <cerrno>
 #include <iomanip>
 #include <limits>
@@ -53,6 +54,8 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull skips any white spaces including line ends.
+    if( std::isspace(static_cast<unsigned char>(*p)) ) return 0;
     char* end;
     errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-- 
2.43.0


From b42ed1a3d1ccee5bc0dec26b4acd315c003e8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 23/33] fix: closed connections were never destroyed while GC
 ran at every turn

While more memory was in use than memory_limit, a new GC was started as
soon as the last one ended, and the garbage collection of the reactor,
which excludes GC, did not run.  The locks of connections that had been
reset were then never released.
---
 src/memcache/handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 55808fa..9ffec4f 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -31,6 +31,11 @@ bool handler::gc_ready(std::time_t now) {
             return false;
         m_last_gc = now;
         m_gc_thread = nullptr;
+
+        // Leave this turn to the garbage collection of the reactor.
+        // It cannot run together with GC, and GC may be needed at
+        // every turn for long.
+        return false;
     }
 
     std::time_t t = g_stats.flush_time.load(relaxed);
-- 
2.43.0


From 103736ec202192efedcb7999fbbdbe9de78b6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 24/33] fix: a client that did not read its replies stalled
 other clients

Replies were sent under the lock of a bucket of the hash map.  When the
client did not read, the worker waited with the bucket locked, and all
commands on its keys, key listings and GC waited too.  Now a worker waits
for the client before it takes the lock.  This also keeps replies from
being lost that were not yet sent when "quit" was processed.
---
 cybozu/hash_map.hpp      |  8 ++++++--
 cybozu/tcp.hpp           | 17 +++++++++++++++++
 src/counter/sockets.cpp  | 18 +++++++++++++++---
 src/memcache/sockets.cpp | 26 ++++++++++++++++++++------
 4 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/cybozu/hash_map.hpp b/cybozu/hash_map.hpp
index c51a763..bdf3291 100644
--- a/cybozu/hash_map.hpp
+++ b/cybozu/hash_map.hpp
@@ -309,9 +309,13 @@ public:
 
     // Apply `pred` for each object.
     // @pred     Predicate function
-    void foreach(const std::function<void(const hash_key&, T&)>& pred) {
-        for( auto& bucket: m_buckets )
+    // @next     If not `nullptr`, called after each bucket without its lock.
+    void foreach(const std::function<void(const hash_key&, T&)>& pred,
+                 const std::function<void()>& next = nullptr) {
+        for( auto& bucket: m_buckets ) {
             bucket.foreach(pred);
+            if( next ) next();
+        }
     }
 
     // Remove an object for `key`.
diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..167383c 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -171,6 +171,23 @@ public:
         });
     }
 
+    // Wait until all data sent so far have been passed to the kernel.
+    //
+    // As long as no other thread sends data to this socket, the next
+    // <send> or <sendv> after this will not block.  Call this before taking
+    // a lock under which data will be sent, or the peer could make the
+    // calling thread hold the lock forever just by not reading.
+    // The reactor thread should not call this.
+    void wait_sent() {
+        with_fd([this](int) -> bool {
+            lock_guard g(m_lock);
+            // the buffers get empty also when this socket is invalidated.
+            while( ! empty() )
+                m_cond_write.wait(g);
+            return true;
+        });
+    }
+
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index fefbc99..824a5e6 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -49,6 +49,8 @@ counter_socket::counter_socket(int fd,
                 if( c == 0 ) break;
                 head += c;
                 len -= c;
+                // replies are sent under the lock of a bucket.
+                wait_sent();
                 execute(parser);
             }
             if( len > MAX_REQUEST_LENGTH ) {
@@ -193,10 +195,20 @@ void counter_socket::cmd_release(const counter::request& cmd, counter::response&
 }
 
 void counter_socket::cmd_dump(counter::response& r) {
-    auto pred = [this,&r](const cybozu::hash_key& k, object& obj) {
-        r.dump(k.data(), k.length(), obj.consumption(), obj.max_consumption());
+    struct entry {
+        cybozu::hash_key key;
+        std::uint32_t consumption;
+        std::uint32_t max_consumption;
     };
-    m_hash.foreach(pred);
+    std::vector<entry> entries;
+    auto pred = [&entries](const cybozu::hash_key& k, object& obj) {
+        entries.push_back({k, obj.consumption(), obj.max_consumption()});
+    };
+    m_hash.foreach(pred, [&entries,&r]() {
+        for( auto& e: entries )
+            r.dump(e.key.data(), e.key.length(), e.consumption, e.max_consumption);
+        entries.clear();
+    });
     r.success();
 }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index f3a7d89..61e57e4 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -73,6 +73,8 @@ memcache_socket::memcache_socket(int fd,
                     if( c == 0 ) break;
                     head += c;
                     len -= c;
+                    // replies are sent under the lock of a bucket.
+                    wait_sent();
                     cmd_bin(parser);
                 } else {
                     mc::text_request parser(head, len);
@@ -80,6 +82,7 @@ memcache_socket::memcache_socket(int fd,
                     if( c == 0 ) break;
                     head += c;
                     len -= c;
+                    wait_sent();
                     cmd_text(parser);
                 }
             }
@@ -168,6 +171,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     std::function<void(const cybozu::hash_key&)> repl = nullptr;
     std::function<bool(const cybozu::hash_key&, object&)> pred;
     std::function<void(const cybozu::hash_key&, object&)> foreach_pred;
+    std::vector<cybozu::hash_key> keys;
 
     switch( cmd.command() ) {
     case binary_command::Get:
@@ -622,12 +626,16 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Keys:
         std::tie(p, len) = cmd.key();
-        foreach_pred = [p,len,&r](const cybozu::hash_key& k, object& obj) {
+        foreach_pred = [p,len,&keys](const cybozu::hash_key& k, object& obj) {
             if( obj.expired() ) return;
             if( (len == 0) || k.has_prefix(p, len) )
-                r.key(k.data(), k.length());
+                keys.push_back(k);
         };
-        m_hash.foreach(foreach_pred);
+        m_hash.foreach(foreach_pred, [&keys,&r]() {
+            for( auto& k: keys )
+                r.key(k.data(), k.length());
+            keys.clear();
+        });
         r.success();
         break;
     default:
@@ -652,6 +660,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
     hash_map::creator c = nullptr;
     std::function<bool(const cybozu::hash_key&, object&)> pred;
     std::function<void(const cybozu::hash_key&, object&)> foreach_pred;
+    std::vector<cybozu::hash_key> keys;
 
     switch( cmd.command() ) {
     case text_command::SET:
@@ -936,6 +945,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         for( mc::item it = cmd.first_key();
              it != mc::text_request::eos; it = cmd.next_key(it) ) {
             std::tie(p, len) = it;
+            wait_sent();
             if( m_hash.apply(cybozu::hash_key(p, len), h, nullptr) ) {
                 g_stats.get_hits.fetch_add(1, relaxed);
             } else {
@@ -946,12 +956,16 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::KEYS:
         std::tie(p, len) = cmd.key();
-        foreach_pred = [p,len,&r](const cybozu::hash_key& k, object& obj) {
+        foreach_pred = [p,len,&keys](const cybozu::hash_key& k, object& obj) {
             if( obj.expired() ) return;
             if( (len == 0) || k.has_prefix(p, len) )
-                r.value(k);
+                keys.push_back(k);
         };
-        m_hash.foreach(foreach_pred);
+        m_hash.foreach(foreach_pred, [&keys,&r]() {
+            for( auto& k: keys )
+                r.value(k);
+            keys.clear();
+        });
         r.end();
         break;
     case text_command::SLABS:
-- 
2.43.0


From 00240c7b98f145c2f6cf849b2abb8dddde30a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 25/33] fix: pending replies were lost when a client closed its
 sending side

---
 src/counter/sockets.cpp  | 3 +++
 src/memcache/sockets.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 824a5e6..54ac963 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,9 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                // the peer may have closed only its sending side.
+                if( res == recv_result::NONE )
+                    wait_sent();
                 invalidate_and_close();
                 break;
             }
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 61e57e4..53f0465 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -60,6 +60,9 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                // the peer may have closed only its sending side.
+                if( res == recv_result::NONE )
+                    wait_sent();
                 invalidate_and_close();
                 break;
             }
-- 
2.43.0


From 1375ebc97dfacda73091d0959bbf1e1d9f53642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 26/33] fix: an error of accept() about one connection, or a
 shortage of memory, stopped the server

---
 cybozu/tcp.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/cybozu/tcp.cpp b/cybozu/tcp.cpp
index 0071325..8d0a33a 100644
--- a/cybozu/tcp.cpp
+++ b/cybozu/tcp.cpp
@@ -476,15 +476,35 @@ bool tcp_server_socket::on_readable(int fd) {
         }
 #endif
         if( s == -1 ) {
-            if( errno == EINTR || errno == ECONNABORTED )
+            switch( errno ) {
+            case EAGAIN:
+#if EAGAIN != EWOULDBLOCK
+            case EWOULDBLOCK:
+#endif
+                return true;
+            case EINTR:
+            case ECONNABORTED:
+            // errors of the new connection.  See accept(2).
+            case ENETDOWN:
+            case EPROTO:
+            case ENOPROTOOPT:
+            case EHOSTDOWN:
+            case ENONET:
+            case EHOSTUNREACH:
+            case EOPNOTSUPP:
+            case ENETUNREACH:
                 continue;
-            if( errno == EMFILE || errno == ENFILE ) {
+            case EMFILE:
+            case ENFILE:
                 logger::error() << "accept: Too many open files.";
                 m_reactor->add_readable(*this);
-                break;
+                return true;
+            case ENOBUFS:
+            case ENOMEM:
+                logger::error() << "accept: Not enough memory.";
+                m_reactor->add_readable(*this);
+                return true;
             }
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                break;
             throw_unix_error(errno, "accept");
         }
 
-- 
2.43.0


From 101da9f5fc1d5189e436be89bc44a98eae731135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 27/33] fix: SIGHUP stopped the server when its log could not
 be opened again

---
 src/server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 9fdf23e..55dc768 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -13,6 +13,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <signal.h>
+#include <system_error>
 #include <thread>
 
 namespace yrmcds {
@@ -53,7 +54,13 @@ void server::serve() {
                                  handler->dump_stats();
                              break;
                          case SIGHUP:
-                             cybozu::logger::instance().reopen();
+                             try {
+                                 cybozu::logger::instance().reopen();
+                             } catch( const std::system_error& e ) {
+                                 // from now on, logs go to stderr.
+                                 cybozu::logger::error() << "failed to reopen the log: "
+                                                         << e.what();
+                             }
                              cybozu::logger::info() << "got SIGHUP.";
                              break;
                          case SIGQUIT:
-- 
2.43.0


From 526ff76b9748eecf3334983c2ce36722e51ffd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 28/33] fix: measure the silence of a slave from when it was
 last heard

The time of the last heartbeat was taken from g_current_time, which is
updated about once a second and before the check of timeouts.  With
slave_timeout of 1 or 2 seconds, slaves that send heartbeats every second
were disconnected again and again, and others up to two seconds early.
---
 src/memcache/sockets.cpp | 2 +-
 src/memcache/sockets.hpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 53f0465..28ab2ac 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1047,7 +1047,7 @@ bool repl_socket::on_readable(int fd) {
             cybozu::logger::info() << "The connection to the slave (" << addr << ") has been closed.";
             return invalidate();
         }
-        m_last_heartbeat = g_current_time.load(relaxed);
+        m_last_heartbeat = std::time(nullptr);
     }
     return true;
 }
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 78531a3..9ed541a 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <ctime>
 #include <functional>
 #include <vector>
 
@@ -99,7 +100,7 @@ public:
         : cybozu::tcp_socket(fd, bufcnt),
           m_finder(finder),
           m_recvbuf(MAX_RECVSIZE),
-          m_last_heartbeat(g_current_time.load(std::memory_order_relaxed))
+          m_last_heartbeat(std::time(nullptr))
     {
         m_sendjob = [this](cybozu::dynbuf&) {
             with_fd([=](int fd) -> bool {
@@ -108,9 +109,11 @@ public:
         };
     }
 
+    // `g_current_time` is not used to remember when a heartbeat was received
+    // because it may be older than that by a second or two.
     bool timed_out() const {
         std::time_t now = g_current_time.load(std::memory_order_relaxed);
-        return m_last_heartbeat + g_config.slave_timeout() <= now;
+        return m_last_heartbeat + g_config.slave_timeout() < now;
     }
 
     std::string peer_ip() {
-- 
2.43.0


From 109d67ef3903ce8415c64950216e4904a6222e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 29/33] fix: reject integers followed by garbage in
 configuration files

"port = 80x" was taken as 80, and a negative number as a huge one.
---
 cybozu/config_parser.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cybozu/config_parser.hpp b/cybozu/config_parser.hpp
index 30596cf..8354862 100644
--- a/cybozu/config_parser.hpp
+++ b/cybozu/config_parser.hpp
@@ -95,8 +95,13 @@ public:
     //
     // @return An integer converted from the associated value.
     int get_as_int(const std::string& key) const {
+        const std::string& s = get(key);
         try {
-            return std::stoi(get(key));
+            std::size_t n;
+            int value = std::stoi(s, &n);
+            if( n != s.size() )
+                throw illegal_value(key);
+            return value;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -112,8 +117,16 @@ public:
     //
     // @return An uint64_t integer converted from the associated value.
     std::uint64_t get_as_uint64(const std::string& key) const {
+        const std::string& s = get(key);
+        // std::stoull accepts negative numbers.
+        if( s.find('-') != std::string::npos )
+            throw illegal_value(key);
         try {
-            return std::stoull(get(key));
+            std::size_t n;
+            std::uint64_t value = std::stoull(s, &n);
+            if( n != s.size() )
+                throw illegal_value(key);
+            return value;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
-- 
2.43.0


From 9791f28bcc872089f24a51e6f3fa75e614d8bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 30/33] fix: reject sizes of wrong form, and allow sizes over 2
 GiB without a unit

"memory_limit = 4GB" was taken as 4 bytes.
---
 src/config.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/config.cpp b/src/config.cpp
index 2b4c12f..51bf954 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -5,6 +5,7 @@
 #include <cybozu/filesystem.hpp>
 #include <cybozu/logger.hpp>
 
+#include <limits>
 #include <unordered_map>
 
 namespace {
@@ -61,9 +62,14 @@ inline std::size_t parse_unit(std::string& s, const char* cmd) {
     }
     if( base != 1 )
         s.pop_back();
-    int n = std::stoi( s );
+    std::size_t pos;
+    long long n = std::stoll( s, &pos );
+    if( pos != s.size() )
+        throw yrmcds::config::bad_config("Invalid " + std::string(cmd));
     if( n < 1 )
         throw yrmcds::config::bad_config(cmd + std::string(" must be > 0"));
+    if( static_cast<std::size_t>(n) > std::numeric_limits<std::size_t>::max() / base )
+        throw yrmcds::config::bad_config(cmd + std::string(" is too large"));
     return base * static_cast<std::size_t>(n);
 }
 
-- 
2.43.0


From e9796fa909d49f3edbde4d6056d3c818f448da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:59 +0000
Subject: [PATCH 31/33] fix: make no copy of the value in incr and decr
 (secure_erase)

---
 src/memcache/object.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 2aaa60a..09e98ec 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,20 +4,38 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <cctype>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
+#include <stdexcept>
 #include <stdio.h>
-#include <string>
 #include <unistd.h>
 
 namespace {
 
+// Convert like std::stoull does, but make no copy of the data as they
+// may be confidential.
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
-    if( ull > std::numeric_limits<std::uint64_t>::max() )
-        throw std::out_of_range("out of range for uint64");
-    return static_cast<std::uint64_t>(ull);
+    const char* const end = p + len;
+    while( p != end && std::isspace(static_cast<unsigned char>(*p)) )
+        ++p;
+    bool negative = false;
+    if( p != end && (*p == '+' || *p == '-') ) {
+        negative = (*p == '-');
+        ++p;
+    }
+    if( p == end || *p < '0' || '9' < *p )
+        throw std::invalid_argument("not a number");
+    const std::uint64_t limit = std::numeric_limits<std::uint64_t>::max();
+    std::uint64_t n = 0;
+    for( ; p != end && '0' <= *p && *p <= '9'; ++p ) {
+        const std::uint64_t digit = *p - '0';
+        if( n > (limit - digit) / 10 )
+            throw std::out_of_range("out of range for uint64");
+        n = n * 10 + digit;
+    }
+    return negative ? (0 - n) : n;
 }
 
 } // anonymous namespace
-- 
2.43.0


From fbf94edaf94b0291ab86a7b6a4fb1efe591c54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:59 +0000
Subject: [PATCH 32/33] fix: erase the temporary buffer used to prepend to a
 file (secure_erase)

---
 src/memcache/object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 09e98ec..5f4d1dd 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -134,7 +134,7 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
-- 
2.43.0


From 3af62f7f082a15c3acbf49394d0948df21d3f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 33/33] fix: make no copy of the initial value on the heap
 (secure_erase)

---
 src/memcache/sockets.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 28ab2ac..3694fc6 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -6,6 +6,7 @@
 #include <cybozu/util.hpp>
 
 #include <cstddef>
+#include <cstdio>
 #include <cstring>
 #include <string>
 #include <sys/socket.h>
@@ -448,8 +449,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
                     return false;
                 // create anew, as if there were no object.
-                const std::string initial = std::to_string(cmd.initial());
-                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                char initial[24];
+                const int n = std::snprintf(initial, sizeof(initial), "%llu",
+                                         (unsigned long long)cmd.initial());
+                obj.set(initial, n, 0, cmd.exptime());
                 if( ! cmd.quiet() )
                     r.incdec( cmd.initial(), obj.cas_unique() );
                 if( ! m_slaves.empty() )
@@ -497,8 +500,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
                     return false;
                 // create anew, as if there were no object.
-                const std::string initial = std::to_string(cmd.initial());
-                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                char initial[24];
+                const int n = std::snprintf(initial, sizeof(initial), "%llu",
+                                         (unsigned long long)cmd.initial());
+                obj.set(initial, n, 0, cmd.exptime());
                 if( ! cmd.quiet() )
                     r.incdec( cmd.initial(), obj.cas_unique() );
                 if( ! m_slaves.empty() )
-- 
2.43.0

