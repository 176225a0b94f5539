From a1ca51bd11d502cf767920d54c87a11d1938ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 01/39] fix: write only the requested bits in
 BitStreamWriter::write_bits

Bits above the requested size were written over bits already in the buffer,
and writing 64 bits to a full buffer shifted by the width of the buffer.
---
 fly/types/bit_stream/bit_stream_writer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..1b34ce4 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -100,6 +100,14 @@ private:
 template <detail::BitStreamInteger DataType>
 void BitStreamWriter::write_bits(DataType bits, byte_type size)
 {
+    if (size == 0)
+    {
+        return;
+    }
+
+    // Only the requested number of least-significant bits are to be written.
+    bits &= bit_mask<DataType>(size);
+
     // If there are more bits to write than are available in the byte buffer, break the bits into
     // two chunks.
     if (size > m_position)
@@ -107,8 +115,9 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. It is undefined behavior to bit-shift by the size of the value being
+        // shifted, so the right-shift (which is at least 1 here) is broken into two operations.
+        m_buffer |= (static_cast<buffer_type>(bits) >> (rshift - 1)) >> 1;
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From bb863172513c53e126732452fb2e107380958e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 02/39] fix: Base64 coder mishandled bytes above 0x7f, large
 inputs and buffer-sized streams

The decoder indexed its table with sign-extended bytes, the encoder cleared
memory past its buffer when padding the last symbol of a large input, and a
padded stream whose length is a multiple of the buffer size was rejected.
---
 fly/coders/base64/base64_coder.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..c3adef7 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<unsigned char>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<unsigned char>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<unsigned char>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<unsigned char>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
@@ -177,6 +177,13 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
             break;
         }
 
+        // If the stream ended exactly at the end of the buffer, the read above did not observe the
+        // end of the stream. Peek for it, as padding symbols may only be decoded on the last read.
+        if (encoded)
+        {
+            encoded.peek();
+        }
+
         std::ios::char_type const *encoding = m_encoded.data();
         std::ios::char_type *decoding = m_decoded.data();
 
-- 
2.43.0


From 41eb2d6f0c1131df15ec9db593163e39f04fc54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 03/39] fix: Huffman coder must reject codes that cannot be
 represented or decoded

The encoder reported success for limits too small for the number of symbols,
and the decoder wrote past its prefix table, read stale entries or consumed
more bits than available when given malformed code tables.
---
 fly/coders/huffman/huffman_decoder.cpp | 27 +++++++++++++++++++++++++-
 fly/coders/huffman/huffman_encoder.cpp | 14 +++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..d3f7ec0 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -180,6 +180,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 return false;
             }
 
+            if (length == 0)
+            {
+                LOGW("Decoded a Huffman code of length zero");
+                return false;
+            }
+
             // First code is always set to zero.
             code_type code = 0;
 
@@ -199,6 +205,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 return false;
             }
 
+            if (code >= (1_u32 << length))
+            {
+                LOGW("Exceeded maximum number of codes of length {} bits", length);
+                return false;
+            }
+
             m_huffman_codes[m_huffman_codes_size++] =
                 HuffmanCode(static_cast<symbol_type>(symbol), code, length);
         }
@@ -211,6 +223,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
 //==================================================================================================
 void HuffmanDecoder::convert_to_prefix_table(length_type max_code_length)
 {
+    // Entries which are not assigned a code below must not retain a code of an earlier chunk.
+    for (std::uint32_t i = 0; i < (1_u32 << max_code_length); ++i)
+    {
+        m_prefix_table[i] = HuffmanCode();
+    }
+
     for (std::uint16_t i = 0; i < m_huffman_codes_size; ++i)
     {
         HuffmanCode const code = std::move(m_huffman_codes[i]);
@@ -234,11 +252,18 @@ bool HuffmanDecoder::decode_symbols(
 {
     std::uint32_t bytes = 0;
     code_type prefix;
+    byte_type peeked;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while ((bytes < chunk_size) && ((peeked = encoded.peek_bits(prefix, max_code_length)) != 0))
     {
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if ((code.m_length == 0) || (code.m_length > peeked))
+        {
+            LOGW("Could not decode symbol, encountered an invalid or truncated code");
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..e675ab9 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,11 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if ((m_max_code_length == 0) || (m_chunk_size == 0))
+    {
+        LOGW("Maximum Huffman code length and chunk size must not be zero");
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -47,6 +52,15 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         create_tree(chunk_size);
         create_codes();
 
+        if (m_huffman_codes_size > (1_u32 << m_max_code_length))
+        {
+            LOGW(
+                "Maximum Huffman code length {} is too small for {} symbols",
+                m_max_code_length,
+                m_huffman_codes_size);
+            return false;
+        }
+
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
     }
-- 
2.43.0


From 83cd97c93758e754389438b833695a80cee78fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 04/39] fix: keep a task taken by a worker when the task
 manager is stopped

A worker which took a task from the queue just as the task manager was
stopped dropped it. After a restart that task was lost, and a sequenced
task runner waiting for its completion never ran another task.
---
 fly/task/task_manager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index ce5925c..85d078c 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -120,8 +120,15 @@ void TaskManager::worker_thread()
 
     while (m_keep_running.load())
     {
-        if (m_tasks.pop(task_holder, s_delay) && m_keep_running.load())
+        if (m_tasks.pop(task_holder, s_delay))
         {
+            if (!m_keep_running.load())
+            {
+                // Keep the task for when the task manager is started again.
+                m_tasks.push(std::move(task_holder));
+                break;
+            }
+
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
             {
                 TaskLocation location = std::move(task_holder.m_location);
-- 
2.43.0


From caed3d566d2ee1878b6a011c6d0f8acda7f97a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 05/39] fix: a refused logger must not unregister the logger
 holding its name

Logger::create returns null when the name is taken, but destroying the
refused logger erased the registry entry of the existing one.
---
 fly/logger/detail/registry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..818c981 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -83,7 +83,13 @@ void Registry::unregister_logger(std::string const &name)
     }
 
     std::lock_guard<std::mutex> lock(m_registry_mutex);
-    m_registry.erase(name);
+
+    // Only forget a logger that is gone. A logger that was refused because its name is already taken
+    // must not unregister the logger holding that name.
+    if (auto it = m_registry.find(name); (it != m_registry.end()) && it->second.expired())
+    {
+        m_registry.erase(it);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From 92818a723a35a31aef82d6164c63c0252a5880bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 06/39] fix: file coding must not succeed when its output could
 not be written

The last bytes are only written when the output file is flushed, whose
failure went unnoticed. The file logger then removed the only copy of a
log file.
---
 fly/coders/coder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index feb8304..25e59a1 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -85,7 +85,7 @@ bool Encoder::encode_file(
 
         if (input && output)
         {
-            successful = encode_internal(input, output);
+            successful = encode_internal(input, output) && output.flush().good();
         }
     }
 
@@ -143,7 +143,7 @@ bool Decoder::decode_file(
 
         if (input && output)
         {
-            successful = decode_internal(input, output);
+            successful = decode_internal(input, output) && output.flush().good();
         }
     }
 
-- 
2.43.0


From fbf16bc93ab212199a956546a53d4fee1cdcbd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 07/39] fix: remove path watches before the monitor descriptor
 is closed

The base class destructor removed them afterwards, through a descriptor
number which may belong to someone else by then.
---
 fly/path/nix/path_monitor_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..9776a56 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -36,6 +36,9 @@ PathMonitorImpl::PathMonitorImpl(
 //==================================================================================================
 PathMonitorImpl::~PathMonitorImpl()
 {
+    // The watches must be removed while the monitor descriptor is still open.
+    remove_all_paths();
+
     if (m_monitor_descriptor != -1)
     {
         ::close(m_monitor_descriptor);
-- 
2.43.0


From 278928b849197ae780e9154e4d82c65892f61b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 08/39] fix: watch a directory again when it was removed and
 recreated

Registering a handler for a directory which had been removed and created
again succeeded, but nothing was ever reported because the watch had
ended with the old directory.
---
 fly/path/nix/path_monitor_impl.cpp | 21 +++++++++++++++++++++
 fly/path/nix/path_monitor_impl.hpp |  8 ++++++++
 fly/path/path_monitor.cpp          |  5 ++++-
 fly/path/path_monitor.hpp          | 10 ++++++++++
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 9776a56..7f34708 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -184,6 +184,7 @@ PathMonitorImpl::PathInfoImpl::PathInfoImpl(
     int monitor_descriptor,
     std::filesystem::path const &path) noexcept :
     PathMonitorImpl::PathInfo(),
+    m_path(path),
     m_monitor_descriptor(monitor_descriptor),
     m_watch_descriptor(-1)
 {
@@ -212,4 +213,24 @@ bool PathMonitorImpl::PathInfoImpl::is_valid() const
     return m_watch_descriptor != -1;
 }
 
+//==================================================================================================
+bool PathMonitorImpl::PathInfoImpl::refresh()
+{
+    // If the path is already being watched, this results in the same watch descriptor.
+    int const watch_descriptor =
+        ::inotify_add_watch(m_monitor_descriptor, m_path.string().c_str(), s_change_flags);
+
+    if (watch_descriptor != m_watch_descriptor)
+    {
+        if (m_watch_descriptor != -1)
+        {
+            ::inotify_rm_watch(m_monitor_descriptor, m_watch_descriptor);
+        }
+
+        m_watch_descriptor = watch_descriptor;
+    }
+
+    return is_valid();
+}
+
 } // namespace fly::path
diff --git a/fly/path/nix/path_monitor_impl.hpp b/fly/path/nix/path_monitor_impl.hpp
index a9e27ad..4596d8b 100644
--- a/fly/path/nix/path_monitor_impl.hpp
+++ b/fly/path/nix/path_monitor_impl.hpp
@@ -73,6 +73,14 @@ private:
          */
         bool is_valid() const override;
 
+        /**
+         * Watch the monitored path again if it is no longer the watched directory.
+         *
+         * @return True if the path is being watched.
+         */
+        bool refresh() override;
+
+        std::filesystem::path const m_path;
         int m_monitor_descriptor;
         int m_watch_descriptor;
     };
diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..ba0d5e3 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -167,7 +167,10 @@ PathMonitor::PathInfo *PathMonitor::get_or_create_path_info(std::filesystem::pat
 
     if (auto it = m_path_info.find(path); it != m_path_info.end())
     {
-        info = it->second.get();
+        if (it->second->refresh())
+        {
+            info = it->second.get();
+        }
     }
     else
     {
diff --git a/fly/path/path_monitor.hpp b/fly/path/path_monitor.hpp
index aa0febb..dabe868 100644
--- a/fly/path/path_monitor.hpp
+++ b/fly/path/path_monitor.hpp
@@ -128,6 +128,16 @@ protected:
          */
         virtual bool is_valid() const = 0;
 
+        /**
+         * Ensure the path is still being monitored, e.g. if it has since been removed and recreated.
+         *
+         * @return True if the monitored path is healthy.
+         */
+        virtual bool refresh()
+        {
+            return is_valid();
+        }
+
         PathEventCallback m_path_handler;
         std::map<std::filesystem::path, PathEventCallback> m_file_handlers;
     };
-- 
2.43.0


From 2f0d0a4801de7fd7d11e52e45db778df4b3e8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 09/39] fix: unregistering a file must not remove handlers
 registered meanwhile

PathMonitor::remove_file released its lock before removing the directory
of the last file, dropping whatever was registered in between.
---
 fly/path/path_monitor.cpp | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index ba0d5e3..bb3c14f 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,33 +131,34 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
-    {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        auto path_it = m_path_info.find(file.parent_path());
+    std::lock_guard<std::mutex> lock(m_mutex);
+    auto path_it = m_path_info.find(file.parent_path());
 
-        if (path_it == m_path_info.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (path_it == m_path_info.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        PathInfo *info = path_it->second.get();
-        auto file_it = info->m_file_handlers.find(file.filename());
+    PathInfo *info = path_it->second.get();
+    auto file_it = info->m_file_handlers.find(file.filename());
 
-        if (file_it == info->m_file_handlers.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (file_it == info->m_file_handlers.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        LOGD("Stopped monitoring {}", file);
-        info->m_file_handlers.erase(file_it);
+    LOGD("Stopped monitoring {}", file);
+    info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+    if (info->m_file_handlers.empty() && !(info->m_path_handler))
+    {
+        LOGI("Removed monitor for {}", path_it->first);
+        m_path_info.erase(path_it);
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From bf0fb3ecef1088c1026e6fda252fc9e3b33ab10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 10/39] fix: configuration manager must not own itself in its
 monitor callback

---
 fly/config/config_manager.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index da40c90..ef9ce59 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -81,15 +81,16 @@ bool ConfigManager::start()
 
     std::weak_ptr<ConfigManager> weak_self = shared_from_this();
 
-    auto callback = [weak_self](std::filesystem::path, fly::path::PathEvent) {
-        if (auto self = weak_self.lock(); self)
-        {
-            auto task = [](std::shared_ptr<ConfigManager> nested_self) {
-                nested_self->update_config();
-            };
-
-            self->m_task_runner->post_task(FROM_HERE, std::move(weak_self), std::move(task));
-        }
+    // The callback must not own the manager, even temporarily: it is invoked while the monitor is
+    // locked, and the manager's destructor locks the monitor again.
+    auto callback = [weak_self, task_runner = m_task_runner](
+                        std::filesystem::path,
+                        fly::path::PathEvent) {
+        auto task = [](std::shared_ptr<ConfigManager> self) {
+            self->update_config();
+        };
+
+        task_runner->post_task(FROM_HERE, weak_self, std::move(task));
     };
 
     return m_monitor->add_file(m_path, callback);
-- 
2.43.0


From a5797e6a86cd6e24e923b64d539b1b1f75de439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 11/39] fix: socket polling must not write beyond an fd_set

---
 .../socket/detail/nix/socket_operations.cpp   | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 37c8ad2..0cf4e24 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -8,6 +8,7 @@
 #include <fcntl.h>
 #include <netdb.h>
 #include <netinet/in.h>
+#include <poll.h>
 #include <sys/select.h>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -85,6 +86,40 @@ namespace {
         return fly::net::Endpoint(std::move(address), port);
     }
 
+    /**
+     * An fd_set can only hold handles in the range [0, FD_SETSIZE). Remove all other handles from the
+     * provided set, and determine which of those handles are ready for IO without waiting. Invalid
+     * handles are considered to be ready so that operations on them may fail.
+     *
+     * @param handles The set of handles to filter.
+     * @param events The IO events to check for.
+     *
+     * @return The removed handles that are ready for IO.
+     */
+    std::set<fly::net::socket_type>
+    extract_unselectable_handles(std::set<fly::net::socket_type> &handles, short events)
+    {
+        std::set<fly::net::socket_type> ready;
+
+        std::erase_if(handles, [&ready, events](fly::net::socket_type handle) {
+            if ((handle >= 0) && (handle < FD_SETSIZE))
+            {
+                return false;
+            }
+
+            pollfd descriptor {handle, events, 0};
+
+            if ((handle < 0) || (::poll(&descriptor, 1, 0) > 0))
+            {
+                ready.insert(handle);
+            }
+
+            return true;
+        });
+
+        return ready;
+    }
+
     template <typename SocketAddressType>
     sockaddr *base(SocketAddressType &address)
     {
@@ -531,6 +566,14 @@ void select(
     std::set<fly::net::socket_type> &writing_handles,
     std::set<fly::net::socket_type> &reading_handles)
 {
+    auto unselectable_writing_handles = extract_unselectable_handles(writing_handles, POLLOUT);
+    auto unselectable_reading_handles = extract_unselectable_handles(reading_handles, POLLIN);
+
+    if (!unselectable_writing_handles.empty() || !unselectable_reading_handles.empty())
+    {
+        timeout = std::chrono::microseconds::zero();
+    }
+
     fd_set write_set, read_set;
     FD_ZERO(&write_set);
     FD_ZERO(&read_set);
@@ -575,6 +618,9 @@ void select(
         writing_handles.clear();
         reading_handles.clear();
     }
+
+    writing_handles.merge(unselectable_writing_handles);
+    reading_handles.merge(unselectable_reading_handles);
 }
 
 } // namespace fly::net::detail
-- 
2.43.0


From e89f401a41b8c386654ceda2749c16ab7238f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 12/39] fix: assigning to a socket must close the handle it
 owned

---
 fly/net/socket/detail/base_socket.cpp | 17 +++++++++++------
 fly/net/socket/listen_socket.cpp      |  5 +++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..82ca6af 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -65,13 +65,18 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
-    m_weak_socket_service = std::move(socket.m_weak_socket_service);
-    m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
-    m_socket_id = socket.m_socket_id;
-    m_mode = socket.m_mode;
+    if (this != &socket)
+    {
+        close();
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
+        m_weak_socket_service = std::move(socket.m_weak_socket_service);
+        m_config = std::move(socket.m_config);
+        m_socket_handle = socket.m_socket_handle;
+        m_socket_id = socket.m_socket_id;
+        m_mode = socket.m_mode;
+
+        socket.m_socket_handle = fly::net::detail::invalid_socket();
+    }
 
     return *this;
 }
diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 4351752..5d45862 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -8,6 +8,8 @@
 #include "fly/net/socket/socket_service.hpp"
 #include "fly/net/socket/tcp_socket.hpp"
 
+#include <utility>
+
 namespace fly::net {
 
 //==================================================================================================
@@ -69,8 +71,7 @@ auto ListenSocket<EndpointType>::create_socket(
 template <IPEndpoint EndpointType>
 ListenSocket<EndpointType> &ListenSocket<EndpointType>::operator=(ListenSocket &&socket) noexcept
 {
-    m_is_listening = socket.m_is_listening;
-    socket.m_is_listening = false;
+    m_is_listening = std::exchange(socket.m_is_listening, false);
 
     return static_cast<ListenSocket &>(BaseSocket::operator=(std::move(socket)));
 }
-- 
2.43.0


From a729c11da89fd593df41172c317622cee7136a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 13/39] fix: numbers which are too large must not wrap around
 when lexed

---
 fly/types/string/lexer.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..4b8dcbc 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -107,7 +108,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a decimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
+     * @return If consumed, the parsed decimal number. Otherwise, or if the number is too large, an
+     *         uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_number();
 
@@ -116,7 +118,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
+     * @return If consumed, the parsed hexadecimal number. Otherwise, or if the number is too large,
+     *         an uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_hex_number();
 
@@ -135,6 +138,8 @@ private:
     template <typename Condition>
     constexpr std::optional<CharType> consume_if(Condition condition);
 
+    static constexpr auto const s_max = std::numeric_limits<std::uintmax_t>::max();
+
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -227,17 +232,21 @@ template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_digit))
     {
         parsed_number = true;
 
+        auto const digit = static_cast<std::uintmax_t>(ch.value() - s_zero);
+        overflowed = overflowed || (number > ((s_max - digit) / 10));
+
         number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        number += digit;
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
@@ -245,11 +254,14 @@ template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
+        overflowed = overflowed || (number > (s_max / 16));
+
         number *= 16;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
@@ -266,7 +278,7 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number
         }
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
-- 
2.43.0


From b0053d182b583ec50da1a5ad7da1d406c6f0322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 14/39] fix: malformed IPv6 addresses must not be accepted

---
 fly/net/ipv6_address.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/fly/net/ipv6_address.hpp b/fly/net/ipv6_address.hpp
index 62d97c6..ce0fd68 100644
--- a/fly/net/ipv6_address.hpp
+++ b/fly/net/ipv6_address.hpp
@@ -163,6 +163,9 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
     std::optional<std::size_t> index_after_short_form;
     std::size_t index = 0;
 
+    bool after_segment = false;
+    bool after_separator = false;
+
     do
     {
         if (lexer.consume_if(s_colon))
@@ -176,11 +179,24 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 
                 index_after_short_form = index;
             }
+            else if (after_segment)
+            {
+                after_separator = true;
+            }
+            else
+            {
+                return std::nullopt;
+            }
+
+            after_segment = false;
         }
         else if (auto const segment = lexer.consume_hex_number(); segment && (*segment <= s_max16))
         {
             parts[index++] = static_cast<address_type::value_type>((*segment >> 8) & 0xff);
             parts[index++] = static_cast<address_type::value_type>(*segment & 0xff);
+
+            after_segment = true;
+            after_separator = false;
         }
         else
         {
@@ -188,7 +204,8 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
         }
     } while (lexer.peek() && (index < s_address_size));
 
-    if (lexer.peek() || ((index != s_address_size) && !index_after_short_form))
+    if (lexer.peek() || after_separator ||
+        ((index == s_address_size) == index_after_short_form.has_value()))
     {
         return std::nullopt;
     }
-- 
2.43.0


From adfdc7fd88d2bb038067a41fd75d266f89e0c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 15/39] fix: negative characters are not decimal digits

---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From 09dad421aa4937ed945fda670558c7868aa11dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 16/39] fix: replacing substrings must end, and wildcards must
 match the whole string

---
 fly/types/string/string.hpp | 49 +++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 2da7973..37fdceb 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -573,7 +573,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, c
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), 1, replace);
-        index = target.find(search);
+        index = target.find(search, index + 1);
     }
 }
 
@@ -586,7 +586,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), replace);
-        index = target.find(search);
+        index = target.find(search, index + replace.size());
     }
 }
 
@@ -602,34 +602,45 @@ template <StandardCharacter CharType>
 bool BasicString<CharType>::wildcard_match(view_type source, view_type search)
 {
     static constexpr char_type s_wildcard = '*';
-    bool result = !search.empty();
 
-    std::vector<string_type> const segments = split(search, s_wildcard);
-    size_type index = 0;
+    if (search.empty())
+    {
+        return false;
+    }
+
+    size_type source_index = 0;
+    size_type search_index = 0;
 
-    if (!segments.empty())
+    // The position after the last wildcard, and the position in the source string up to which that
+    // wildcard has been expanded.
+    size_type wildcard_index = view_type::npos;
+    size_type expanded_index = 0;
+
+    while (source_index < source.size())
     {
-        if (result && (search.front() != s_wildcard))
+        if ((search_index < search.size()) && (search[search_index] == s_wildcard))
         {
-            result = source.starts_with(segments.front());
+            wildcard_index = ++search_index;
+            expanded_index = source_index;
         }
-        if (result && (search.back() != s_wildcard))
+        else if (
+            (search_index < search.size()) && (search[search_index] == source[source_index]))
         {
-            result = source.ends_with(segments.back());
+            ++search_index;
+            ++source_index;
         }
-
-        for (auto it = segments.begin(); result && (it != segments.end()); ++it)
+        else if (wildcard_index != view_type::npos)
         {
-            index = source.find(*it, index);
-
-            if (index == string_type::npos)
-            {
-                result = false;
-            }
+            search_index = wildcard_index;
+            source_index = ++expanded_index;
+        }
+        else
+        {
+            return false;
         }
     }
 
-    return result;
+    return search.find_first_not_of(s_wildcard, search_index) == view_type::npos;
 }
 
 //==================================================================================================
-- 
2.43.0


From d90fc8d6248a653c18f8e6b29da88cf9ca0ef24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 17/39] fix: numeric literals which are too large must not wrap
 around

---
 fly/types/numeric/detail/literal_parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/numeric/detail/literal_parser.hpp b/fly/types/numeric/detail/literal_parser.hpp
index a349ea1..5bdb9f5 100644
--- a/fly/types/numeric/detail/literal_parser.hpp
+++ b/fly/types/numeric/detail/literal_parser.hpp
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace fly::detail {
@@ -50,8 +51,15 @@ struct Aggregator<T, Base, Digit, Literals...>
 {
     static constexpr T aggregate(T aggregated)
     {
-        return Aggregator<T, Base, Literals...>::aggregate(
-            aggregated * Base + parse_and_validate_literal());
+        constexpr T digit = parse_and_validate_literal();
+
+        // Literals are parsed at compile time, where throwing an exception is a compile error.
+        if (aggregated > ((std::numeric_limits<T>::max() - digit) / Base))
+        {
+            throw std::overflow_error("Literal is too large");
+        }
+
+        return Aggregator<T, Base, Literals...>::aggregate(aggregated * Base + digit);
     }
 
 private:
-- 
2.43.0


From 524b190949c1e713edd2782b18514519e25dc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:15 +0000
Subject: [PATCH 18/39] fix: lexer must not peek backwards for huge offsets

---
 fly/types/string/lexer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index 4b8dcbc..3da17c0 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -194,7 +194,7 @@ constexpr void BasicLexer<CharType>::set_position(std::size_t position)
 template <StandardCharacter CharType>
 constexpr std::optional<CharType> BasicLexer<CharType>::peek(std::size_t offset)
 {
-    if ((m_index + offset) >= m_size)
+    if ((m_index >= m_size) || (offset >= (m_size - m_index)))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 9840c8820e63b864f40cb06bcacc8592d1f33a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 19/39] fix: JSON parser must accept comments between a key and
 its colon

---
 fly/parser/json_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index eb645d1..a228e7e 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -269,7 +269,10 @@ std::optional<fly::Json> JsonParser::parse_value()
 //==================================================================================================
 JsonParser::ParseState JsonParser::consume_token(Token token)
 {
-    consume_whitespace();
+    if (consume_whitespace_and_comments() == ParseState::Invalid)
+    {
+        return ParseState::Invalid;
+    }
 
     if (Token const parsed = get<Token>(); parsed != token)
     {
-- 
2.43.0


From 1784b6bbe4ced90fe72c8bf25678c4c114131575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 20/39] fix: vertical tab is not whitespace in JSON

---
 fly/parser/json_parser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index a228e7e..18fa5a3 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -471,7 +471,6 @@ bool JsonParser::is_whitespace(Token token) const
     {
         case Token::Tab:
         case Token::NewLine:
-        case Token::VerticalTab:
         case Token::CarriageReturn:
         case Token::Space:
             return true;
-- 
2.43.0


From ce6cae6ff7606bdcdc07d380b8e86f24e5b3ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 21/39] fix: JSON parser must reject a malformed comment after
 a comma

---
 fly/parser/json_parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 18fa5a3..79b1de8 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -290,18 +290,16 @@ JsonParser::ParseState JsonParser::consume_comma(Token end_token)
     {
         return ParseState::Invalid;
     }
-    else if (state_for_object_or_array(end_token) == ParseState::StopParsing)
-    {
-        if (m_allow_trailing_comma)
-        {
-            return ParseState::StopParsing;
-        }
 
+    ParseState const state = state_for_object_or_array(end_token);
+
+    if ((state == ParseState::StopParsing) && !m_allow_trailing_comma)
+    {
         JLOG("Found trailing comma, but Features::AllowTrailingComma is not enabled");
         return ParseState::Invalid;
     }
 
-    return ParseState::KeepParsing;
+    return state;
 }
 
 //==================================================================================================
-- 
2.43.0


From 31a86b517faca1c628e1facc93909d5d58d43718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 22/39] fix: JSON iterator offsets whose magnitude is not
 representable must be rejected

---
 fly/types/json/detail/json_iterator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fly/types/json/detail/json_iterator.hpp b/fly/types/json/detail/json_iterator.hpp
index 73aca05..4e80e05 100644
--- a/fly/types/json/detail/json_iterator.hpp
+++ b/fly/types/json/detail/json_iterator.hpp
@@ -5,9 +5,10 @@
 #include "fly/types/json/json_exception.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <cmath>
+#include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <variant>
 
@@ -742,7 +743,9 @@ auto JsonIterator<JsonType>::operator+=(difference_type offset) -> JsonIterator
 template <fly::SameAs<Json> JsonType>
 auto JsonIterator<JsonType>::operator-=(difference_type offset) -> JsonIterator &
 {
-    return *this += -offset;
+    // The smallest offset cannot be negated. Json instances are not that large, either way.
+    constexpr auto largest = std::numeric_limits<difference_type>::max();
+    return *this += -std::max(offset, -largest);
 }
 
 //==================================================================================================
@@ -867,7 +870,7 @@ void JsonIterator<JsonType>::validate_offset(T const &it, difference_type offset
         distance = std::distance(std::get<T>(begin.m_iterator), it);
     }
 
-    if (std::abs(offset) > distance)
+    if ((offset > distance) || (offset < -distance))
     {
         throw OutOfRangeJsonException(*m_json, offset);
     }
-- 
2.43.0


From ba7d455bb69a8d7f5e2fa490d0d282f477c2372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 23/39] fix: JSON integers of different signedness must be
 compared by value

---
 fly/types/json/json.cpp |  4 ++--
 fly/types/json/json.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..94728c8 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -747,7 +747,7 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -789,7 +789,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..09f59ff 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1370,8 +1370,8 @@ public:
      *    unsigned, or float) and have approximately the same value after converting both types to
      *    floating-point. Approximation is determined by comparing the difference between the two
      *    values to the machine epsilon.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value
-     *    after converting the second Json value to the same type as the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and have the same value. A
+     *    negative value is never equal to an unsigned value.
      * 3. The two Json instances are of the same type and have the same value.
      *
      * @return True if the two Json instances are equal.
@@ -1393,9 +1393,9 @@ public:
      * 1. One of the two JSON types are floating-point, the other is a numeric type (signed,
      *    unsigned, or float) and the default less-than operator returns true after converting both
      *    types to floating-point.
-     * 2. The two Json instances are an integer type (signed or unsigned) and have the default
-     *    less-than operator returns true after converting the second Json value to the same type as
-     *    the first Json value.
+     * 2. The two Json instances are an integer type (signed or unsigned) and the value of the first
+     *    is less than the value of the second. A negative value is always less than an unsigned
+     *    value.
      * 3. The two Json instances are of the same type and the default less-than operator returns
      *    true.
      * 4. The two Json instances are of incompatible types and the type of the first Json instance
-- 
2.43.0


From 9d115541e96cdfc730a5d4503af9f9b92676b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 24/39] fix: equal JSON numbers of different types must have
 equal hashes

---
 fly/types/json/json.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 09f59ff..84de174 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -2195,6 +2195,16 @@ struct std::hash<fly::Json>
 
                 return result;
             }
+            else if constexpr (fly::JsonNumber<S>)
+            {
+                // Numbers of different types may be equal to each other, so must share a hash.
+                constexpr std::size_t number_type = std::variant_size_v<fly::json_type>;
+
+                std::hash<fly::json_floating_point_type> hasher {};
+                return hash_combine(
+                    number_type,
+                    hasher(static_cast<fly::json_floating_point_type>(storage)));
+            }
             else
             {
                 std::hash<std::remove_cvref_t<S>> hasher {};
-- 
2.43.0


From 35c2f56fd1871ebf2289884e405398aca181f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 25/39] fix: INI values must keep every assignment operator,
 and a single quote is imbalanced

---
 fly/parser/ini_parser.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index a7b4c5a..fcff29b 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -3,8 +3,6 @@
 #include "fly/logger/logger.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <vector>
-
 namespace fly::parser {
 
 #define ILOG(format, ...) LOGW("[line {}]: " format, line() __VA_OPT__(, ) __VA_ARGS__)
@@ -120,13 +118,12 @@ std::optional<std::string> IniParser::on_section(std::string &section)
 std::optional<std::pair<std::string, std::string>>
 IniParser::on_name_value_pair(std::string const &name_value)
 {
-    static constexpr std::uint32_t s_size = 2;
-
-    std::vector<std::string> pair = fly::String::split(name_value, '=', s_size);
+    // Any assignment operators after the first are part of the value.
+    auto const position = name_value.find('=');
 
-    if (pair.size() == s_size)
+    if ((position != std::string::npos) && (position > 0) && (position + 1 < name_value.size()))
     {
-        std::string name(std::move(pair[0])), value(std::move(pair[1]));
+        std::string name(name_value.substr(0, position)), value(name_value.substr(position + 1));
 
         fly::String::trim(name);
         fly::String::trim(value);
@@ -165,7 +162,7 @@ IniParser::TrimResult IniParser::trim_value(std::string &str, char start, char e
     bool starts_with_char = str.starts_with(start);
     bool ends_with_char = str.ends_with(end);
 
-    if (starts_with_char && ends_with_char)
+    if (starts_with_char && ends_with_char && (str.size() > 1))
     {
         str = str.substr(1, str.size() - 2);
         return TrimResult::Trimmed;
-- 
2.43.0


From 79192fc1960caf8e1dcdcd822e066087e6a8eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 26/39] fix: files which cannot be read, or end within a
 character, must not be parsed

---
 fly/parser/parser.cpp | 13 ++++++++++++-
 fly/parser/parser.hpp | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 52579ba..0da14ad 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -93,8 +93,19 @@ std::optional<fly::Json> Parser::parse_stream(std::istream &&stream)
     m_line = 1;
     m_column = 0;
 
+    std::optional<fly::Json> result;
     m_stream_buffer = stream.rdbuf();
-    auto result = parse_internal();
+
+    try
+    {
+        result = parse_internal();
+    }
+    catch (std::ios_base::failure const &)
+    {
+        // The stream could not be read, e.g. because the path to be parsed is a directory.
+        result = std::nullopt;
+    }
+
     m_stream_buffer = nullptr;
 
     return result;
diff --git a/fly/parser/parser.hpp b/fly/parser/parser.hpp
index 0df8bd5..f44ccb1 100644
--- a/fly/parser/parser.hpp
+++ b/fly/parser/parser.hpp
@@ -210,7 +210,9 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
     {
         char_type character = 0;
 
-        for (std::uint8_t i = 0; stream && (i < s_char_size); ++i)
+        std::uint8_t i = 0;
+
+        for (; stream && (i < s_char_size); ++i)
         {
             std::uint8_t const shift = 8 * (s_char_size - i - 1);
             character |= static_cast<char_type>(stream.get() & 0xff) << shift;
@@ -225,6 +227,16 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
 
             contents.push_back(character);
         }
+        else if (i > 1)
+        {
+            // The stream ended within a character.
+            return std::nullopt;
+        }
+    }
+
+    if (stream.bad())
+    {
+        return std::nullopt;
     }
 
     return fly::BasicString<char_type>::template convert<std::string>(contents);
-- 
2.43.0


From eba7480c97d3160d4561573266b2e16f305c6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 27/39] fix: size the buffer of formatted floating-point values
 by the value and precision

---
 fly/types/string/formatters.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 882fa6d..6840c8d 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -18,6 +18,7 @@
 #include <string>
 #include <system_error>
 #include <type_traits>
+#include <vector>
 
 #if !defined(FLY_COMPILER_SUPPORTS_FP_CHARCONV)
 #    include <iomanip>
@@ -772,7 +773,13 @@ private:
      */
     FloatConversionResult convert_value(T value, int precision)
     {
-        static thread_local std::array<char, std::numeric_limits<T>::digits> s_buffer;
+        static thread_local std::vector<char> s_buffer;
+
+        // The longest conversion is the fixed presentation of the largest value. Other than that,
+        // there may be a sign, a decimal point, and an exponent.
+        s_buffer.resize(
+            static_cast<std::size_t>(std::numeric_limits<T>::max_exponent10) +
+            static_cast<std::size_t>(std::max(precision, 0)) + 16);
 
         char *begin = s_buffer.data();
         char *end = begin + s_buffer.size();
-- 
2.43.0


From 74a00269e34df950e6a28f3935f6161f225b9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 28/39] fix: a user-defined formatter must not move its
 replacement field to the first parameter

---
 fly/types/string/detail/format_string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fly/types/string/detail/format_string.hpp b/fly/types/string/detail/format_string.hpp
index 61ddbb5..5b49ac6 100644
--- a/fly/types/string/detail/format_string.hpp
+++ b/fly/types/string/detail/format_string.hpp
@@ -209,6 +209,7 @@ constexpr void BasicFormatString<CharType, ParameterTypes...>::parse_user_define
 
             if constexpr (fly::DerivedFrom<Formatter, FormatSpecifier>)
             {
+                formatter.m_position = specifier.m_position;
                 formatter.copy_formatting_options_into(specifier);
             }
         }
-- 
2.43.0


From a567e068ed54307529da6f73b90895b21300303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 29/39] fix: the alternate form of floating-point values keeps
 as many significant digits as the precision

---
 fly/types/string/formatters.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 6840c8d..bc8db0b 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -811,10 +811,14 @@ private:
         conversion_result.m_digits =
             std::string_view(begin, static_cast<std::size_t>(to_chars_result.ptr - begin));
 
-        if (m_alternate_form)
+        // Infinity and NaN do not have an alternate form.
+        if (m_alternate_form && std::isfinite(value))
         {
             conversion_result.m_append_decimal = true;
 
+            // Leading zeroes are not significant, unless the value itself is zero.
+            std::size_t significant_digits = 0;
+
             for (char const *it = begin; it != to_chars_result.ptr; ++it)
             {
                 if (*it == '.')
@@ -827,19 +831,19 @@ private:
 
                     conversion_result.m_exponent = conversion_result.m_digits.substr(position);
                     conversion_result.m_digits = conversion_result.m_digits.substr(0, position);
+                    break;
+                }
+                else if ((significant_digits > 0) || (*it != '0') || (value == 0))
+                {
+                    ++significant_digits;
                 }
             }
 
-            if (m_type == FormatSpecifier::Type::General)
+            if ((m_type == FormatSpecifier::Type::General) &&
+                (static_cast<std::size_t>(precision) > significant_digits))
             {
-                auto const digits = conversion_result.m_digits.size() -
-                    static_cast<std::size_t>(!conversion_result.m_append_decimal);
-
-                if (static_cast<std::size_t>(precision) > digits)
-                {
-                    conversion_result.m_zeroes_to_append =
-                        static_cast<std::size_t>(precision) - digits;
-                }
+                conversion_result.m_zeroes_to_append =
+                    static_cast<std::size_t>(precision) - significant_digits;
             }
         }
 
-- 
2.43.0


From cf33e555007ad142f43c7b4120e00b11c27a3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:34 +0000
Subject: [PATCH 30/39] fix: do not publish NaN as the CPU usage when the CPU
 counters did not advance between polls

---
 fly/system/nix/system_monitor_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..a53e6a9 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,11 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        // The counters may not have advanced since the previous poll.
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From e74d754b83bf74050eeb557163beb3e054b7c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 31/39] fix: Restore the default signal actions before dropping
 the signal handler

---
 fly/system/system.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fly/system/system.cpp b/fly/system/system.cpp
index ba24550..e276edb 100644
--- a/fly/system/system.cpp
+++ b/fly/system/system.cpp
@@ -44,12 +44,23 @@ void set_signal_handler(SignalHandler handler)
 #endif
 
     auto handler_or_default = handler ? handle_signal : SIG_DFL;
-    s_signal_handler = std::move(handler);
+
+    // A signal may arrive at any point in this function. While |handle_signal| is installed, there must
+    // always be a handler for it to invoke.
+    if (handler)
+    {
+        s_signal_handler = handler;
+    }
 
     for (int signal : s_signals)
     {
         std::signal(signal, handler_or_default);
     }
+
+    if (!handler)
+    {
+        s_signal_handler = nullptr;
+    }
 }
 
 } // namespace fly::system
-- 
2.43.0


From 73ec4e4d7d1199b67e471cefececb7098ba9a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 32/39] fix: Keep a signal handler alive while it is being
 invoked

---
 fly/system/system.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fly/system/system.cpp b/fly/system/system.cpp
index e276edb..0fac238 100644
--- a/fly/system/system.cpp
+++ b/fly/system/system.cpp
@@ -5,17 +5,21 @@
 
 #include <array>
 #include <csignal>
+#include <functional>
+#include <memory>
 #include <system_error>
 
 namespace fly::system {
 
 namespace {
 
-    SignalHandler s_signal_handler = nullptr;
+    std::shared_ptr<SignalHandler> s_signal_handler = nullptr;
 
     void handle_signal(int signal)
     {
-        std::invoke(s_signal_handler, signal);
+        // The handler may itself set another handler; do not destroy it while it is being invoked.
+        auto signal_handler = s_signal_handler;
+        std::invoke(*signal_handler, signal);
     }
 
 } // namespace
@@ -43,13 +47,14 @@ void set_signal_handler(SignalHandler handler)
         s_signals {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};
 #endif
 
-    auto handler_or_default = handler ? handle_signal : SIG_DFL;
+    bool const has_handler = handler != nullptr;
+    auto handler_or_default = has_handler ? handle_signal : SIG_DFL;
 
     // A signal may arrive at any point in this function. While |handle_signal| is installed, there must
     // always be a handler for it to invoke.
-    if (handler)
+    if (has_handler)
     {
-        s_signal_handler = handler;
+        s_signal_handler = std::make_shared<SignalHandler>(std::move(handler));
     }
 
     for (int signal : s_signals)
@@ -57,7 +62,7 @@ void set_signal_handler(SignalHandler handler)
         std::signal(signal, handler_or_default);
     }
 
-    if (!handler)
+    if (!has_handler)
     {
         s_signal_handler = nullptr;
     }
-- 
2.43.0


From 8f088bbe211b609d6302847415ebe6222b99deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 33/39] fix: Do not let the format of a stream alter escape
 sequences, or be altered by them

---
 fly/logger/detail/nix/styler_proxy_impl.cpp | 34 +++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/fly/logger/detail/nix/styler_proxy_impl.cpp b/fly/logger/detail/nix/styler_proxy_impl.cpp
index 9da8f3d..2b1aab8 100644
--- a/fly/logger/detail/nix/styler_proxy_impl.cpp
+++ b/fly/logger/detail/nix/styler_proxy_impl.cpp
@@ -2,6 +2,37 @@
 
 namespace fly::logger::detail {
 
+namespace {
+
+    /**
+     * RAII helper to stream escape sequences without being affected by the formatting state (e.g.
+     * base, width) of a stream, and without modifying that state.
+     */
+    class ScopedDefaultFormat
+    {
+    public:
+        explicit ScopedDefaultFormat(std::ostream &stream) noexcept :
+            m_stream(stream),
+            m_flags(stream.flags()),
+            m_width(stream.width(0))
+        {
+            m_stream.flags(std::ios_base::dec | (m_flags & std::ios_base::unitbuf));
+        }
+
+        ~ScopedDefaultFormat()
+        {
+            m_stream.flags(m_flags);
+            m_stream.width(m_width);
+        }
+
+    private:
+        std::ostream &m_stream;
+        std::ios_base::fmtflags const m_flags;
+        std::streamsize const m_width;
+    };
+
+} // namespace
+
 //==================================================================================================
 StylerProxyImpl::StylerProxyImpl(
     std::ostream &stream,
@@ -12,6 +43,8 @@ StylerProxyImpl::StylerProxyImpl(
 {
     if (m_stream_is_stdout || m_stream_is_stderr)
     {
+        ScopedDefaultFormat format(m_stream);
+
         if (!styles.empty() || !colors.empty())
         {
             apply_styles_and_colors(std::move(styles), std::move(colors));
@@ -30,6 +63,7 @@ StylerProxyImpl::~StylerProxyImpl()
 {
     if (m_did_apply_style_or_color)
     {
+        ScopedDefaultFormat format(m_stream);
         m_stream << "\x1b[0m";
     }
 }
-- 
2.43.0


From 8908696f6213adb6d1b6736161b4120a33accb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 34/39] fix: Do not print the null terminator of an assertion's
 message

---
 fly/assert/detail/assert_enabled.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/assert/detail/assert_enabled.hpp b/fly/assert/detail/assert_enabled.hpp
index d1e838d..3992a78 100644
--- a/fly/assert/detail/assert_enabled.hpp
+++ b/fly/assert/detail/assert_enabled.hpp
@@ -199,7 +199,7 @@ void Assertion::assertion_failed(char const (&message)[N], CaptureTypes &&...cap
         Capture {std::forward<CaptureTypes>(captures)}...};
 
     m_capture_names = m_capture_names.subspan(1);
-    log_assertion({message, N}, parameters);
+    log_assertion({message, N - 1}, parameters);
 }
 
 } // namespace fly::detail
-- 
2.43.0


From b417e8d90205b22339c42a7719dff9b4c0bfb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 35/39] fix: Tell when a bit stream could not be written

---
 fly/types/bit_stream/bit_stream_writer.cpp | 5 ++++-
 fly/types/bit_stream/bit_stream_writer.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.cpp b/fly/types/bit_stream/bit_stream_writer.cpp
index 9482d70..23ebffc 100644
--- a/fly/types/bit_stream/bit_stream_writer.cpp
+++ b/fly/types/bit_stream/bit_stream_writer.cpp
@@ -48,7 +48,10 @@ bool BitStreamWriter::finish()
 //==================================================================================================
 void BitStreamWriter::flush_header(byte_type remainder)
 {
-    m_stream_buffer->pubseekpos(0);
+    if (m_stream_buffer->pubseekpos(0) == std::streampos(-1))
+    {
+        m_stream.setstate(std::ios::failbit);
+    }
 
     byte_type const header =
         (detail::s_magic << detail::s_magic_shift) | (remainder << detail::s_remainder_shift);
diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 1b34ce4..554e4d0 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -139,9 +139,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        std::streamsize const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From 98a6d7178026ef19e8f8f9088ab8d36f1698ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 36/39] fix: Do not terminate when a bit stream cannot be read

---
 fly/types/bit_stream/bit_stream_reader.cpp | 23 +++++++++++++++++++--
 fly/types/bit_stream/bit_stream_reader.hpp | 24 +++++++++++++++++++---
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index f0cc7db..f187f38 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -44,7 +44,7 @@ bool BitStreamReader::fully_consumed() const
 {
     if (m_position == 0)
     {
-        return m_stream_buffer->sgetc() == EOF;
+        return end_of_stream();
     }
 
     return false;
@@ -77,7 +77,7 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (m_stream_buffer->sgetc() == EOF)
+        if (end_of_stream())
         {
             // At end-of-file, discard any encoded zero-filled bits.
             m_position -= m_remainder;
@@ -86,4 +86,23 @@ void BitStreamReader::refill_buffer()
     }
 }
 
+//==================================================================================================
+bool BitStreamReader::end_of_stream() const
+{
+    if (m_stream.bad())
+    {
+        return false;
+    }
+
+    try
+    {
+        return m_stream_buffer->sgetc() == EOF;
+    }
+    catch (...)
+    {
+        m_stream.setstate(std::ios::badbit);
+        return false;
+    }
+}
+
 } // namespace fly
diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..c1d7432 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -137,6 +137,14 @@ private:
     template <detail::BitStreamInteger DataType>
     byte_type fill(DataType &buffer, byte_type bytes);
 
+    /**
+     * Check if the stream has no more bytes to read. If the stream cannot be read, its bad bit is set
+     * and it is not considered to be at its end.
+     *
+     * @return True if the end of the stream has been reached.
+     */
+    bool end_of_stream() const;
+
     std::istream &m_stream;
 
     byte_type m_header {0};
@@ -238,9 +246,19 @@ byte_type BitStreamReader::fill(DataType &buffer, byte_type bytes)
 {
     if (m_stream)
     {
-        std::streamsize const bytes_read = m_stream_buffer->sgetn(
-            reinterpret_cast<std::ios::char_type *>(&buffer),
-            static_cast<std::streamsize>(bytes));
+        std::streamsize bytes_read = 0;
+
+        try
+        {
+            bytes_read = m_stream_buffer->sgetn(
+                reinterpret_cast<std::ios::char_type *>(&buffer),
+                static_cast<std::streamsize>(bytes));
+        }
+        catch (...)
+        {
+            m_stream.setstate(std::ios::badbit);
+            return 0;
+        }
 
         buffer = endian_swap_if_non_native<std::endian::big>(buffer);
         return static_cast<byte_type>(bytes_read);
-- 
2.43.0


From 095fbb19c12f5b35e314faf9df75cb188fd5b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 37/39] fix: Do not take an error while reading for the end of
 the input of the Huffman encoder

---
 fly/coders/huffman/huffman_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index e675ab9..40d43eb 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -65,7 +65,7 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         encode_symbols(chunk_size, encoded);
     }
 
-    return encoded.finish();
+    return decoded.eof() && encoded.finish();
 }
 
 //==================================================================================================
-- 
2.43.0


From f07b17ef7b9fc32429ffacc2c6e0e706ea76416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 38/39] fix: Do not throw once a file was coded to something
 which has no size

---
 fly/coders/coder.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index 25e59a1..7136a8e 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <fstream>
 #include <sstream>
+#include <system_error>
 
 namespace fly::coders {
 
@@ -91,10 +92,14 @@ bool Encoder::encode_file(
 
     if (successful)
     {
-        log_encoder_stats(
-            start,
-            std::filesystem::file_size(decoded),
-            std::filesystem::file_size(encoded));
+        std::error_code decoded_error, encoded_error;
+        auto const decoded_size = std::filesystem::file_size(decoded, decoded_error);
+        auto const encoded_size = std::filesystem::file_size(encoded, encoded_error);
+
+        if (!decoded_error && !encoded_error)
+        {
+            log_encoder_stats(start, decoded_size, encoded_size);
+        }
     }
 
     return successful;
@@ -149,10 +154,14 @@ bool Decoder::decode_file(
 
     if (successful)
     {
-        log_decoder_stats(
-            start,
-            std::filesystem::file_size(encoded),
-            std::filesystem::file_size(decoded));
+        std::error_code encoded_error, decoded_error;
+        auto const encoded_size = std::filesystem::file_size(encoded, encoded_error);
+        auto const decoded_size = std::filesystem::file_size(decoded, decoded_error);
+
+        if (!encoded_error && !decoded_error)
+        {
+            log_decoder_stats(start, encoded_size, decoded_size);
+        }
     }
 
     return successful;
-- 
2.43.0


From 9414fc25d8c3b69749c207308bc9186a9a445a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:42 +0000
Subject: [PATCH 39/39] fix: Do not drop the unread events of a removed
 directory when it is registered again in vain

---
 fly/path/nix/path_monitor_impl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 7f34708..40b4fa6 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -220,6 +220,13 @@ bool PathMonitorImpl::PathInfoImpl::refresh()
     int const watch_descriptor =
         ::inotify_add_watch(m_monitor_descriptor, m_path.string().c_str(), s_change_flags);
 
+    if (watch_descriptor == -1)
+    {
+        // Events which occurred before the path was removed may still be unread.
+        LOGS("Could not refresh watcher for {}", m_path);
+        return false;
+    }
+
     if (watch_descriptor != m_watch_descriptor)
     {
         if (m_watch_descriptor != -1)
@@ -230,7 +237,7 @@ bool PathMonitorImpl::PathInfoImpl::refresh()
         m_watch_descriptor = watch_descriptor;
     }
 
-    return is_valid();
+    return true;
 }
 
 } // namespace fly::path
-- 
2.43.0

