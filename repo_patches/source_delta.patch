From 193ed49ebb204dde80f14bfa585467da5451306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 001/126] fix: ring::back() reports quit even when there is
 space left

---
 include/stdex/ring.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..a2f4ef2 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -43,11 +43,10 @@ namespace stdex
 		std::tuple<T*, size_t> back()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
-			if (!space()) {
+			if (!space())
 				m_head_moved.wait(lk, [&]{return m_quit || space();});
-				if (m_quit) _Unlikely_
-					return { nullptr, 0 };
-			}
+			if (m_quit) _Unlikely_
+				return { nullptr, 0 };
 			size_t tail = wrap(m_head + m_size);
 			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };
 		}
-- 
2.43.0


From 4a87d30512ebd84fdc707fc40958a2106c031c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 002/126] fix: async_writer: flush() and close() report the
 failure of the sink

---
 include/stdex/ring.hpp   |  5 ++++-
 include/stdex/stream.hpp | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index a2f4ef2..f7372f4 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -121,10 +121,13 @@ namespace stdex
 		///
 		/// Waits until the ring is flush
 		///
-		void sync()
+		/// \return true if the ring is flush; false if the ring has quit
+		///
+		bool sync()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
 			m_head_moved.wait(lk, [&]{return m_quit || empty();});
+			return !m_quit;
 		}
 
 	protected:
diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..157c9f6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1355,9 +1355,20 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				const bool synced = m_ring.sync();
+				converter::close();
+				if (!synced) _Unlikely_
+					m_state = state_t::fail;
+			}
+
 			virtual void flush()
 			{
-				m_ring.sync();
+				if (!m_ring.sync()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				converter::flush();
 			}
 
@@ -1370,11 +1381,13 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
-					m_ring.pop(num_read);
 					if (!m_source->ok()) {
+						// Quit before the ring gets flush. Otherwise, sync() would take it for a success.
 						m_ring.quit();
+						m_ring.pop(num_read);
 						break;
 					}
+					m_ring.pop(num_read);
 				}
 			}
 
-- 
2.43.0


From a8c3540e1059c374021a37f10116d1d15991f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 003/126] fix: aggregate_progress: host is given outdated
 totals when workers report at once

---
 include/stdex/progress.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 6245c04..a8d3e88 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -9,6 +9,7 @@
 #include "interval.hpp"
 #include <atomic>
 #include <chrono>
+#include <mutex>
 #include <shared_mutex>
 #include <vector>
 
@@ -416,12 +417,13 @@ namespace stdex
 			///
 			virtual void set_range(_In_ T start, _In_ T end)
 			{
+				// Other workers must not get between updating and reporting of the totals, or the host would end up with outdated ones.
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T
 					combined_start = m_host.m_start += start - m_start,
 					combined_end = m_host.m_end += end - m_end;
 				m_start = start;
 				m_end = end;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_range(combined_start, combined_end);
 			}
@@ -433,9 +435,9 @@ namespace stdex
 			///
 			virtual void set(_In_ T value)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T combined_value = m_host.m_value += value - m_value;
 				m_value = value;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set(combined_value);
 			}
-- 
2.43.0


From 3d0cd27dd47bd95ad1552d6d80600b6f8425baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 004/126] fix: lazy_progress, timeout_progress: a change of the
 wall clock must not affect reporting or deadline

---
 include/stdex/progress.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index a8d3e88..4f4131b 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -115,11 +115,11 @@ namespace stdex
 		virtual void set(_In_ T value)
 		{
 			if (value == m_start || value == m_end)
-				m_last = std::chrono::high_resolution_clock::now();
+				m_last = std::chrono::steady_clock::now();
 			else if (value == m_value)
 				return;
 			else {
-				auto now = std::chrono::high_resolution_clock::now();
+				auto now = std::chrono::steady_clock::now();
 				if (now - m_last < m_timeout)
 					return;
 				m_last = now;
@@ -136,7 +136,7 @@ namespace stdex
 
 	protected:
 		std::chrono::nanoseconds m_timeout;
-		std::chrono::system_clock::time_point m_last;
+		std::chrono::steady_clock::time_point m_last;
 		T m_start, m_end, m_value;
 	};
 
@@ -156,7 +156,7 @@ namespace stdex
 		///
 		timeout_progress(_In_ const std::chrono::nanoseconds& timeout = std::chrono::seconds(60), _In_opt_ progress<T>* host = nullptr) :
 			m_host(host),
-			m_deadline(std::chrono::high_resolution_clock::now() + timeout)
+			m_deadline(std::chrono::steady_clock::now() + timeout)
 		{}
 
 		///
@@ -211,12 +211,12 @@ namespace stdex
 		{
 			return
 				(m_host && m_host->cancel()) ||
-				m_deadline < std::chrono::high_resolution_clock::now();
+				m_deadline < std::chrono::steady_clock::now();
 		}
 
 	protected:
 		progress<T>* m_host;
-		std::chrono::high_resolution_clock::time_point m_deadline;
+		std::chrono::steady_clock::time_point m_deadline;
 	};
 
 	///
-- 
2.43.0


From 324e5b7f588f077746908d4a1ed6d5e378286c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 005/126] fix: write_stream() reports a failed or short write

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 157c9f6..315c5ba 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -567,6 +567,10 @@ namespace stdex
 					size_t num_written = write(data.get(), num_read);
 					num_copied += num_written;
 					to_write -= num_written;
+					if (num_read && (!ok() || num_written < num_read)) _Unlikely_ {
+						m_state = state_t::fail;
+						break;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From d86598022175a39271d3a9b13f35f5e9f41dc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 006/126] fix: basic_file::read_remainder() beyond the end of
 file

---
 include/stdex/stream.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 315c5ba..4a46cd1 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -820,8 +820,14 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
 				std::vector<uint8_t> result;
+				fpos_t offset = tell();
+				fsize_t end = size();
+				if (offset == fpos_max || end == fsize_max) _Unlikely_ {
+					m_state = state_t::fail;
+					return result;
+				}
+				size_t length = offset < end ? static_cast<size_t>(std::min<fsize_t>(max_length, end - offset)) : 0;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
 					m_state = state_t::fail;
-- 
2.43.0


From 4f50b4f37e099498ce95238943d8040090830d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 007/126] fix: cache::write() fills a gap after the end of file
 with random data

---
 include/stdex/stream.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4a46cd1..3ad5b4a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1965,7 +1965,7 @@ namespace stdex
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
-						if (m_cache.region.start <= m_offset && m_offset < end_max) {
+						if (m_cache.region.start <= m_offset && m_offset <= m_cache.region.end && m_offset < end_max) {
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
@@ -2005,6 +2005,19 @@ namespace stdex
 					load_cache(m_offset);
 					if (!ok()) _Unlikely_
 						return length - to_write;
+					if (m_cache.region.end < m_offset) _Unlikely_ {
+						// There is a gap between data in cache and the write. Bypass cache and let the source fill it.
+						m_cache.status = cache_t::cache_t::status_t::empty;
+						m_source->seekbeg(m_offset);
+						if (!m_source->ok()) _Unlikely_ {
+							m_state = state_t::fail;
+							return length - to_write;
+						}
+						size_t num_written = m_source->write(data, to_write);
+						m_offset += num_written;
+						m_state = m_source->state();
+						return length - (to_write - num_written);
+					}
 				}
 			}
 
-- 
2.43.0


From 8069993564e03b702ca6abc348fd2db1e41735f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 008/126] fix: cache::read() null read at the end of file is
 not end of file

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3ad5b4a..c096c5c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1949,7 +1949,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
 						return length - to_read;
 					}
 				}
-- 
2.43.0


From 90b9646ed3866b65683f9c00dcc289bbfffb1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 009/126] fix: cache::write() refuses to write after the end of
 file was read, ignores failed seek

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index c096c5c..ae3197e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1991,8 +1991,10 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
-							if (!ok()) _Unlikely_
+							if (!m_source->ok()) _Unlikely_ {
+								m_state = state_t::fail;
 								return length - to_write;
+							}
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
 							m_offset += num_written;
 							m_state = m_source->state();
-- 
2.43.0


From 21860a36daede7fd5d7dc281210d5172e3615a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 010/126] fix: memory_file: zero the gap when writing or
 truncating beyond the end of file

---
 include/stdex/stream.hpp | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ae3197e..b4394bb 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3703,12 +3703,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				size_t end_offset = m_offset + length;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				fill_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3725,12 +3730,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!amount) _Unlikely_ {
+					m_state = state_t::ok;
+					return;
+				}
 				size_t end_offset = m_offset + amount;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return;
 				}
+				fill_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3766,6 +3776,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3809,6 +3820,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3854,6 +3866,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3915,9 +3928,12 @@ namespace stdex
 						}
 					};
 				}
-				m_offset = dst_offset;
-				if (m_offset > m_size)
-					m_size = m_offset;
+				if (num_copied) {
+					fill_gap();
+					m_offset = dst_offset;
+					if (m_offset > m_size)
+						m_size = m_offset;
+				}
 				return num_copied;
 			}
 
@@ -3966,8 +3982,14 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (m_offset > m_reserved) {
+					reserve(m_offset);
+					if (!ok()) _Unlikely_
+						return;
+				}
+				fill_gap();
 				m_size = m_offset;
-				reserve(m_offset);
+				m_state = state_t::ok;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -4003,6 +4025,15 @@ namespace stdex
 #endif
 
 		protected:
+			///
+			/// Zeroes content between the end of file and file pointer, should the file pointer be beyond the end of file
+			///
+			void fill_gap()
+			{
+				if (m_offset > m_size)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+
 			///
 			/// Writes data to specified file location
 			/// This does not move file pointer nor update file size. It checks for reserved space stdex_assert-only (in Debug builds). Use with caution!
-- 
2.43.0


From 6f6d341908464d20032c537a0574addc44f75ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 011/126] fix: memory_file::read() beyond the end of file reads
 outside of memory block

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b4394bb..a54e6f4 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3593,7 +3593,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
-- 
2.43.0


From 68fb105dbfe2e99370fbf05a68449960ab570c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 012/126] fix: memory_file::read_data(), read_str() move back
 from beyond the end of file, keep old string

---
 include/stdex/stream.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a54e6f4..8ac89fd 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3644,7 +3644,7 @@ namespace stdex
 				}
 				else {
 					data = 0;
-					m_offset = m_size;
+					m_offset = std::max(m_offset, m_size);
 					m_state = state_t::eof;
 				}
 				return *this;
@@ -3688,10 +3688,11 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, (m_size - m_offset) / sizeof(T));
 				}
-				m_offset = m_size;
+				else
+					data.clear();
+				m_offset = std::max(m_offset, m_size);
 				m_state = state_t::eof;
 				return *this;
 			}
-- 
2.43.0


From 7dc47f345ec574fe52adc9d08da0b70a7377c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 013/126] fix: read_array() counts partially read element as
 read

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8ac89fd..95c97c2 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -381,7 +381,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return count - (to_read + size - 1) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From f66268814cac13a26e422f891573a4abfaa349bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 014/126] fix: cache::size() after reading beyond the end of
 file

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 95c97c2..53cb4ee 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2088,7 +2088,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status != cache_t::cache_t::status_t::empty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From 5c3e075f0f5cd2f6b3fd623d976a00e7cc949f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 015/126] fix: cache::write() leaves outdated data in cache
 when write spans multiple blocks

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 53cb4ee..726d0a3 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1985,6 +1985,7 @@ namespace stdex
 						flush_cache();
 						if (!ok()) _Unlikely_
 							return length - to_write;
+						m_cache.status = cache_t::cache_t::status_t::empty; // Writing past the cache might make it outdated.
 					}
 					{
 						fpos_t end_max = m_offset + to_write;
-- 
2.43.0


From 1dc3c19f4c34b97a81536f4c24cf0e9b202aa44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 016/126] fix: cache: failure to read the source is reported as
 end of file, failed seek corrupts cache

---
 include/stdex/stream.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 726d0a3..3c54a35 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1949,7 +1949,7 @@ namespace stdex
 						return length - to_read;
 					}
 					if (m_cache.region.end <= m_offset) _Unlikely_ {
-						m_state = to_read < length || !length ? state_t::ok : state_t::eof;
+						m_state = to_read < length || !length ? state_t::ok : m_source->state();
 						return length - to_read;
 					}
 				}
@@ -2191,9 +2191,10 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status != cache_t::cache_t::status_t::dirty);
 				start -= start % m_cache.capacity; // Align to cache block size.
-				m_source->seekbeg(m_cache.region.start = start);
+				m_source->seekbeg(start);
 				if (m_source->ok()) {
-					m_cache.region.end = start + m_source->read(m_cache.data, m_cache.capacity);
+					m_cache.region.start = start;
+					m_cache.region.end = start + m_source->read_array(m_cache.data, sizeof(uint8_t), m_cache.capacity);
 					m_cache.status = cache_t::cache_t::status_t::loaded;
 					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
 				}
-- 
2.43.0


From a77738c318b7d754f5135f0d64d2c2c679d4edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 017/126] fix: cache: write to wrong place when seek fails

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3c54a35..e13b49e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2206,6 +2206,10 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
+				if (!m_source->ok()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
-- 
2.43.0


From f54f5618b0e98766362e51cf1b1e4971728eceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 018/126] fix: cache::truncate(): failed seek truncates
 elsewhere, failed truncation loses data

---
 include/stdex/stream.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index e13b49e..afdcfc1 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2100,6 +2100,11 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				if (m_source->ok())
+					m_source->truncate();
+				m_state = m_source->state();
+				if (!ok()) _Unlikely_
+					return;
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
@@ -2111,8 +2116,6 @@ namespace stdex
 					// Truncation invalidates cache.
 					m_cache.status = cache_t::cache_t::status_t::empty;
 				}
-				m_source->truncate();
-				m_state = m_source->state();
 			}
 
 			virtual time_point ctime() const
-- 
2.43.0


From 6ae2d313cf53beb5e0fa1d7f1040a95d9b11b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 019/126] fix: cached_file: failed flush in destructor
 terminates the process

---
 include/stdex/stream.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index afdcfc1..4e184db 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1851,14 +1851,15 @@ namespace stdex
 			{
 				if (m_source) {
 					flush_cache();
+					auto source = m_source;
+					m_source = nullptr; // The source might not outlive derived class destructor. ~cache() must not use it again.
 					if (!ok()) _Unlikely_
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
-					m_source->seekbeg(m_offset);
+					source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
-					m_source->set_atime(m_atime);
-					m_source->set_mtime(m_mtime);
+					source->set_atime(m_atime);
+					source->set_mtime(m_mtime);
 #endif
-					m_source = nullptr;
 				}
 			}
 			/// \endcond
-- 
2.43.0


From eabed90a8b368861322bc628f13281f53fb943d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 020/126] fix: cache::flush() hides failed flush of the source

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4e184db..c1e05a0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2043,6 +2043,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
-- 
2.43.0


From 7ca945f53b000aed1cf568a654d7989aeec9d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 021/126] fix: basic_sys_object closes handle twice when close
 or duplicate fails

---
 include/stdex/system.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..057fea6 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,10 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
-				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				T h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				std::swap(m_h, h);
+				if (h != TR::invalid_handle)
+					TR::close(h);
 			}
 			return *this;
 		}
@@ -183,8 +184,9 @@ namespace stdex
 		virtual void close()
 		{
 			if (m_h != TR::invalid_handle) {
-				TR::close(m_h);
+				T h = m_h;
 				m_h = TR::invalid_handle;
+				TR::close(h);
 			}
 		}
 
-- 
2.43.0


From 10867851e18374c592a91f0b1a6684e97ece1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 022/126] fix: basic_sys_object: failed close terminates the
 process on move assignment

---
 include/stdex/system.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 057fea6..c8550d0 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -161,13 +161,14 @@ namespace stdex
 			other.m_h = TR::invalid_handle;
 		}
 
-		basic_sys_object& operator =(_Inout_ basic_sys_object<T, TR>&& other) noexcept
+		basic_sys_object& operator =(_Inout_ basic_sys_object<T, TR>&& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
+				T h = m_h;
 				m_h = other.m_h;
 				other.m_h = TR::invalid_handle;
+				if (h != TR::invalid_handle)
+					TR::close(h);
 			}
 			return *this;
 		}
-- 
2.43.0


From fec2e044d60a000085bf6742c4d8d80a47ba60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 023/126] fix: cache: failed flush in destructor terminates the
 process when unwinding after failed close()

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index c1e05a0..b20a5e7 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1853,7 +1853,7 @@ namespace stdex
 					flush_cache();
 					auto source = m_source;
 					m_source = nullptr; // The source might not outlive derived class destructor. ~cache() must not use it again.
-					if (!ok()) _Unlikely_
+					if (!ok() && !std::uncaught_exceptions()) _Unlikely_
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
 					source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
@@ -1880,7 +1880,7 @@ namespace stdex
 			{
 				if (m_source) {
 					flush_cache();
-					if (!ok()) _Unlikely_
+					if (!ok() && !std::uncaught_exceptions()) _Unlikely_
 						throw std::system_error(sys_error(), std::system_category(), "failed to flush cache"); // Data loss occurred
 					m_source->seekbeg(m_offset);
 #if SET_FILE_OP_TIMES
-- 
2.43.0


From 1008e380b46f2242142df482a4a6874173e36fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 024/126] fix: buffer: close loses buffered data

---
 include/stdex/stream.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index b20a5e7..35e6e7a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1528,6 +1528,15 @@ namespace stdex
 					converter::flush();
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				auto state = m_state;
+				converter::close();
+				if (state != state_t::ok) _Unlikely_
+					m_state = state;
+			}
+
 		protected:
 			void flush_write()
 			{
-- 
2.43.0


From 22658a35920e909362a452e5495651c454fa303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 025/126] fix: buffer: flush reports ok with data left behind
 when the source writes short

---
 include/stdex/stream.hpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 35e6e7a..be05862 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1505,14 +1505,9 @@ namespace stdex
 						to_write -= available_buffer;
 						m_write_buffer.tail += available_buffer;
 					}
-					size_t buffer_size = m_write_buffer.tail - m_write_buffer.head;
-					if (buffer_size) {
-						m_write_buffer.head += converter::write(m_write_buffer.data + m_write_buffer.head, buffer_size);
-						if (m_write_buffer.head == m_write_buffer.tail)
-							m_write_buffer.head = m_write_buffer.tail = 0;
-						else
-							return length - to_write;
-					}
+					flush_write();
+					if (!ok()) _Unlikely_
+						return length - to_write;
 					if (to_write > m_write_buffer.capacity) {
 						// When needing to write more data than buffer capacity, bypass the buffer.
 						to_write -= converter::write(data, to_write);
@@ -1540,18 +1535,16 @@ namespace stdex
 		protected:
 			void flush_write()
 			{
-				size_t buffer_size = m_write_buffer.tail - m_write_buffer.head;
-				if (buffer_size) {
-					m_write_buffer.head += m_source->write(m_write_buffer.data + m_write_buffer.head, buffer_size);
-					if (m_write_buffer.head == m_write_buffer.tail) {
-						m_write_buffer.head = 0;
-						m_write_buffer.tail = 0;
-					}
-					else {
-						m_state = m_source->state();
+				while (m_write_buffer.head != m_write_buffer.tail) {
+					size_t num_written = m_source->write(m_write_buffer.data + m_write_buffer.head, m_write_buffer.tail - m_write_buffer.head);
+					m_write_buffer.head += num_written;
+					if (m_write_buffer.head != m_write_buffer.tail && (!num_written || !m_source->ok())) {
+						m_state = m_source->ok() ? state_t::fail : m_source->state();
 						return;
 					}
 				}
+				m_write_buffer.head = 0;
+				m_write_buffer.tail = 0;
 				m_state = state_t::ok;
 			}
 
-- 
2.43.0


From 27aa3d71b8d5a8c78af3dfc0a2c44e033bf5ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 026/126] fix: skipping a few bytes beyond the end throws
 instead of setting the state

---
 include/stdex/stream.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index be05862..9e7f290 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,11 +147,10 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
-				if (amount == 1)
-					read_byte();
-				else if (amount < iterate_count) {
+				if (amount < iterate_count) {
 					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
+						uint8_t dummy;
+						read_array(&dummy, sizeof(dummy), 1);
 						if (!ok()) _Unlikely_
 							break;
 					}
-- 
2.43.0


From 1acad45a5198fe9ad8f84903feb10b96754a5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 027/126] fix: failed read is taken for a missing
 byte-order-mark

---
 include/stdex/stream.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 9e7f290..d3e79f1 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -997,6 +997,8 @@ namespace stdex
 					throw std::system_error(sys_error(), std::system_category(), "failed to seek");
 				utf32_t id_utf32;
 				read_array(&id_utf32, sizeof(utf32_t), 1);
+				if (m_state == state_t::fail) _Unlikely_
+					throw std::system_error(sys_error(), std::system_category(), "failed to read");
 				if (ok() && id_utf32 == utf32_bom)
 					return charset_id::utf32;
 
@@ -1004,6 +1006,8 @@ namespace stdex
 					throw std::system_error(sys_error(), std::system_category(), "failed to seek");
 				utf16_t id_utf16;
 				read_array(&id_utf16, sizeof(utf16_t), 1);
+				if (m_state == state_t::fail) _Unlikely_
+					throw std::system_error(sys_error(), std::system_category(), "failed to read");
 				if (ok() && id_utf16 == utf16_bom)
 					return charset_id::utf16;
 
@@ -1011,6 +1015,8 @@ namespace stdex
 					throw std::system_error(sys_error(), std::system_category(), "failed to seek");
 				char id_utf8[3] = { 0 };
 				read_array(id_utf8, sizeof(id_utf8), 1);
+				if (m_state == state_t::fail) _Unlikely_
+					throw std::system_error(sys_error(), std::system_category(), "failed to read");
 				if (ok() && strncmp(id_utf8, _countof(id_utf8), utf8_bom, _countof(utf8_bom)) == 0)
 					return charset_id::utf8;
 
-- 
2.43.0


From c31ab58dc784c5cfad66b85d48d9f300b21697d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 028/126] fix: file_window: seek, skip, tell and locks mix
 window and file positions

---
 include/stdex/stream.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d3e79f1..5f9411f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1770,27 +1770,38 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				fpos_t base = how == seek_t::beg ? m_region.start : how == seek_t::cur ? m_offset : m_region.end;
+				fpos_t target = base + static_cast<fpos_t>(offset);
+				if (target < m_region.start || (offset < 0 && target > base)) _Unlikely_ {
+					m_state = state_t::fail;
+					return fpos_max;
+				}
+				target = m_source.seekbeg(target);
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (target == fpos_max) _Unlikely_
+					return fpos_max;
+				m_offset = target;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
 				m_source.skip(amount);
 				m_state = m_source.state();
+				if (ok())
+					m_offset += amount;
 			}
 
 			virtual fpos_t tell() const
 			{
 				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_region.contains(offset) || offset == m_region.end ? offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1799,8 +1810,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From 9e3fd923c93d78e46c5a199a255fc030189b4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 029/126] fix: window::write reports discarded bytes behind the
 window as written although the write in the window stopped short

---
 include/stdex/stream.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 5f9411f..9b990af 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1702,9 +1702,11 @@ namespace stdex
 					m_state = state_t::ok;
 				}
 				else {
-					num_skipped += length - static_cast<size_t>(write_limit);
-					num_written = converter::write(data, static_cast<size_t>(write_limit));
+					size_t to_write = static_cast<size_t>(write_limit);
+					num_written = converter::write(data, to_write);
 					write_limit -= num_written;
+					if (num_written == to_write)
+						num_skipped += length - to_write;
 				}
 				return num_skipped + num_written;
 			}
-- 
2.43.0


From d1949bb57ee52d559c8f3ec3437b7cae58b3a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 030/126] fix: memory_file: failed copy assignment leaves
 released memory in use

---
 include/stdex/stream.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 9b990af..ce9d961 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3412,14 +3412,15 @@ namespace stdex
 			memory_file& operator=(_In_ const memory_file& other)
 			{
 				if (this != std::addressof(other)) {
-					*static_cast<basic_file*>(this) = other;
-					if (m_manage && m_data)
-						free(m_data);
-					m_data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
-					if (!m_data) {
+					auto data = reinterpret_cast<uint8_t*>(malloc(other.m_size));
+					if (!data) {
 						m_state = state_t::fail;
 						throw std::bad_alloc();
 					}
+					*static_cast<basic_file*>(this) = other;
+					if (m_manage && m_data)
+						free(m_data);
+					m_data = data;
 					memcpy(m_data, other.m_data, other.m_size);
 					m_offset = other.m_offset;
 					m_size = other.m_size;
-- 
2.43.0


From d0a3f09a846babb372669a46caa8c3cb2692a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 031/126] fix: memory_file::save reports ok when the file was
 not written or truncated completely

---
 include/stdex/stream.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ce9d961..aea6843 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3588,17 +3588,21 @@ namespace stdex
 					m_state = state_t::fail;
 					return;
 				}
-				f.write(m_data, m_size);
-				if (!f.ok()) {
+				if (f.write(m_data, m_size) != m_size || !f.ok()) {
 					m_state = state_t::fail;
 					return;
 				}
 				f.truncate();
+				if (!f.ok()) {
+					m_state = state_t::fail;
+					return;
+				}
 #if SET_FILE_OP_TIMES
 				f.set_ctime(m_ctime);
 				f.set_atime(m_atime);
 				f.set_mtime(m_mtime);
 #endif
+				m_state = state_t::ok;
 			}
 
 			///
-- 
2.43.0


From 44720478b6aba5c0d7ca9b37758bee74cfe3b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 032/126] fix: zlib_reader::read never returns when data
 follows compressed stream or a dictionary is required

---
 include/stdex/zlib.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..524cc1f 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -122,7 +122,8 @@ namespace stdex
 		zlib_reader(_Inout_ stdex::stream::basic& source, _In_ uInt block_size = 0x10000) :
 			stdex::stream::converter(source),
 			m_block_size(block_size),
-			m_block(new Byte[block_size])
+			m_block(new Byte[block_size]),
+			m_finished(false)
 		{
 			memset(&m_zlib, 0, sizeof(m_zlib));
 			throw_on_zlib_error(inflateInit(&m_zlib));
@@ -144,6 +145,11 @@ namespace stdex
 				m_zlib.avail_out = num_deflated;
 				m_zlib.next_out = reinterpret_cast<Bytef*>(data);
 				do {
+					if (m_finished) {
+						num_read += num_deflated - m_zlib.avail_out;
+						m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;
+						return num_read;
+					}
 					if (m_zlib.avail_in == 0) {
 						m_zlib.next_in = m_block.get();
 						m_zlib.avail_in = static_cast<uInt>(m_source->read(m_block.get(), m_block_size));
@@ -157,7 +163,11 @@ namespace stdex
 							return 0;
 						}
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result);
+					if (result == Z_NEED_DICT) _Unlikely_
+						throw std::runtime_error("zlib dictionary required");
+					m_finished = result == Z_STREAM_END;
 				} while (m_zlib.avail_out);
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
@@ -171,6 +181,7 @@ namespace stdex
 		z_stream m_zlib;
 		uInt m_block_size;
 		std::unique_ptr<Byte[]> m_block;
+		bool m_finished;
 	};
 }
 
-- 
2.43.0


From b1f70b51ca15b754216518b6cd058710e7e46cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 033/126] fix: zlib_reader reports truncated data as regular
 end of file

---
 include/stdex/zlib.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 524cc1f..195033f 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -159,7 +159,7 @@ namespace stdex
 								m_state = stdex::stream::state_t::ok;
 								return num_read;
 							}
-							m_state = m_source->state();
+							m_state = stdex::stream::state_t::fail; // Source failed, or ended before the compressed stream did.
 							return 0;
 						}
 					}
-- 
2.43.0


From f5855bda40ac1faf9c9ea1a209f72dc8f5e00333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 034/126] fix: zlib_writer ignores compressed data the sink did
 not accept

---
 include/stdex/zlib.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 195033f..76f108b 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -67,8 +67,8 @@ namespace stdex
 				m_zlib.avail_out = m_block_size;
 				m_zlib.next_out = m_block.get();
 				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));
-				m_source->write(m_block.get(), m_block_size - m_zlib.avail_out);
-				if (!m_source->ok()) _Unlikely_
+				size_t num_deflated = m_block_size - m_zlib.avail_out;
+				if ((num_deflated && m_source->write(m_block.get(), num_deflated) < num_deflated) || !m_source->ok()) _Unlikely_
 					throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
 			} while (m_zlib.avail_out == 0);
 			// m_zlib.avail_out = m_block_size;
@@ -92,9 +92,8 @@ namespace stdex
 					throw_on_zlib_error(deflate(&m_zlib, Z_NO_FLUSH));
 					size_t num_deflated = m_block_size - m_zlib.avail_out;
 					if (num_deflated) {
-						m_source->write(m_block.get(), num_deflated);
-						if (!m_source->ok()) {
-							m_state = m_source->state();
+						if (m_source->write(m_block.get(), num_deflated) < num_deflated || !m_source->ok()) _Unlikely_ {
+							m_state = stdex::stream::state_t::fail;
 							return num_written;
 						}
 					}
-- 
2.43.0


From 2214e4f0a0b660c2389172f14ba075dd0f120258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 035/126] fix: zlib_writer::close closes the sink before the
 compressed stream is finished; destructor leaks and terminates on failure

---
 include/stdex/zlib.hpp | 54 ++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 76f108b..e4746f6 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -53,28 +53,28 @@ namespace stdex
 		zlib_writer(_Inout_ stdex::stream::basic& source, _In_ int compression_level = Z_BEST_COMPRESSION, _In_ uInt block_size = 0x10000) :
 			stdex::stream::converter(source),
 			m_block_size(block_size),
-			m_block(new Byte[block_size])
+			m_block(new Byte[block_size]),
+			m_finished(false)
 		{
 			memset(&m_zlib, 0, sizeof(m_zlib));
 			throw_on_zlib_error(deflateInit(&m_zlib, compression_level));
 		}
 
-		virtual ~zlib_writer()
+		virtual ~zlib_writer() noexcept(false)
 		{
-			m_zlib.avail_in = 0;
-			m_zlib.next_in = NULL;
-			do {
-				m_zlib.avail_out = m_block_size;
-				m_zlib.next_out = m_block.get();
-				throw_on_zlib_error(deflate(&m_zlib, Z_FINISH));
-				size_t num_deflated = m_block_size - m_zlib.avail_out;
-				if ((num_deflated && m_source->write(m_block.get(), num_deflated) < num_deflated) || !m_source->ok()) _Unlikely_
-					throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
-			} while (m_zlib.avail_out == 0);
-			// m_zlib.avail_out = m_block_size;
-			// m_zlib.next_out = m_block.get();
-			// deflateReset(&m_zlib);
+			bool failed = !m_finished && !finish();
 			deflateEnd(&m_zlib);
+			if (failed && !std::uncaught_exceptions()) _Unlikely_
+				throw std::system_error(sys_error(), std::system_category(), "failed to flush compressed stream"); // Data loss occured
+		}
+
+		virtual void close()
+		{
+			bool failed = !m_finished && !finish();
+			m_finished = true; // The source gets closed: there is no place to write to any more.
+			converter::close();
+			if (failed) _Unlikely_
+				m_state = stdex::stream::state_t::fail;
 		}
 
 		virtual _Success_(return != 0) size_t write(
@@ -106,10 +106,34 @@ namespace stdex
 			return num_written;
 		}
 
+	protected:
+		///
+		/// Writes the rest of the compressed stream to the source
+		///
+		/// \return `true` on success; `false` when data loss occured
+		///
+		bool finish()
+		{
+			m_zlib.avail_in = 0;
+			m_zlib.next_in = NULL;
+			do {
+				m_zlib.avail_out = m_block_size;
+				m_zlib.next_out = m_block.get();
+				if (deflate(&m_zlib, Z_FINISH) < 0) _Unlikely_
+					return false;
+				size_t num_deflated = m_block_size - m_zlib.avail_out;
+				if ((num_deflated && m_source->write(m_block.get(), num_deflated) < num_deflated) || !m_source->ok()) _Unlikely_
+					return false;
+			} while (m_zlib.avail_out == 0);
+			m_finished = true;
+			return true;
+		}
+
 	protected:
 		z_stream m_zlib;
 		uInt m_block_size;
 		std::unique_ptr<Byte[]> m_block;
+		bool m_finished;
 	};
 
 	///
-- 
2.43.0


From 0f403f8be91a7d161a3ff210511ba1203a9c312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 036/126] fix: base64_writer hides failed line break and short
 write of the sink, returns wrong count on failure

---
 include/stdex/base64.hpp | 50 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..48ba349 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -183,13 +183,8 @@ namespace stdex
 		virtual ~base64_writer()
 		{
 			// Flush the buffer.
-			if (m_num) {
-				if (++m_num_blocks > m_max_blocks) {
-					*m_source << '\n';
-					m_num_blocks = 1;
-				}
-				encode(m_num);
-			}
+			if (m_num)
+				write_block();
 		}
 
 		virtual _Success_(return != 0) size_t write(
@@ -198,14 +193,9 @@ namespace stdex
 			stdex_assert(data || !length);
 			for (size_t i = 0;; i++) {
 				if (m_num >= 3) {
-					if (++m_num_blocks > m_max_blocks) {
-						*m_source << '\n';
-						m_num_blocks = 1;
-					}
-					encode();
-					if (!m_source->ok()) _Unlikely_ {
-						m_state = m_source->state();
-						return length - i;
+					if (!write_block()) _Unlikely_ {
+						m_state = stdex::stream::state_t::fail;
+						return i;
 					}
 					m_num = 0;
 				}
@@ -218,23 +208,45 @@ namespace stdex
 		}
 
 	protected:
+		///
+		/// Encodes complete or partial internal buffer of data, preceded by a line break when due
+		///
+		/// \return `true` when source accepted all characters; `false` otherwise
+		///
+		bool write_block()
+		{
+			if (m_num_blocks >= m_max_blocks) {
+				if (m_source->write_array("\n", sizeof(char), 1) != 1 || !m_source->ok()) _Unlikely_
+					return false;
+				m_num_blocks = 0;
+			}
+			if ((m_num < 3 ? encode(m_num) : encode()) != 4 || !m_source->ok()) _Unlikely_
+				return false;
+			m_num_blocks++;
+			return true;
+		}
+
 		///
 		/// Encodes one complete internal buffer of data
 		///
-		void encode()
+		/// \return Number of characters source accepted
+		///
+		size_t encode()
 		{
 			char out[4];
 			out[0] = base64_enc_lookup[                    m_buf[0] >> 2         ];
 			out[1] = base64_enc_lookup[((m_buf[0] << 4) | (m_buf[1] >> 4)) & 0x3f];
 			out[2] = base64_enc_lookup[((m_buf[1] << 2) | (m_buf[2] >> 6)) & 0x3f];
 			out[3] = base64_enc_lookup[                    m_buf[2]        & 0x3f];
-			m_source->write_array(out, sizeof(*out), _countof(out));
+			return m_source->write_array(out, sizeof(*out), _countof(out));
 		}
 
 		///
 		/// Encodes partial internal buffer of data
 		///
-		void encode(_In_ size_t size)
+		/// \return Number of characters source accepted
+		///
+		size_t encode(_In_ size_t size)
 		{
 			char out[4];
 			if (size > 0) {
@@ -259,7 +271,7 @@ namespace stdex
 				out[2] = '=';
 				out[3] = '=';
 			}
-			m_source->write_array(out, sizeof(*out), _countof(out));
+			return m_source->write_array(out, sizeof(*out), _countof(out));
 		}
 
 	protected:
-- 
2.43.0


From 90ddb1bb4470be4035358d2fd374cfb6563e1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 037/126] fix: base64_reader loses last bytes of padded data

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 48ba349..a80041a 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -432,9 +432,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From f3dd1e47919ebb71c7304d416e0c6e7894a747e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 038/126] fix: base64_writer: close and destructor lose or hide
 loss of last bytes

---
 include/stdex/base64.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index a80041a..ef11a6c 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -180,11 +180,21 @@ namespace stdex
 			m_num_blocks(0)
 		{}
 
-		virtual ~base64_writer()
+		virtual ~base64_writer() noexcept(false)
 		{
 			// Flush the buffer.
-			if (m_num)
-				write_block();
+			if (m_num && !write_block() && !std::uncaught_exceptions()) _Unlikely_
+				throw std::system_error(sys_error(), std::system_category(), "failed to flush Base64 data"); // Data loss occured
+		}
+
+		virtual void close()
+		{
+			// Flush the buffer.
+			bool failed = m_num && !write_block();
+			m_num = 0;
+			converter::close();
+			if (failed) _Unlikely_
+				m_state = stdex::stream::state_t::fail;
 		}
 
 		virtual _Success_(return != 0) size_t write(
-- 
2.43.0


From cb06356769677be35649216975f069503ec55fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 039/126] fix: block_hash: wrong digest when 4 GiB or more are
 hashed in one piece

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..f7a0e2a 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(static_cast<uint64_t>(length) >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 1c2141896836db932f89497387abff758026fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 040/126] fix: operators >> for vector and set return nothing

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index aea6843..e9bc286 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -710,6 +710,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -739,6 +740,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From 9fadfce38799347d7bd083aaf6879e59f1ff3efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 041/126] fix: write_data(), write_array() ignore short writes

---
 include/stdex/stream.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index e9bc286..874e4ae 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -295,10 +295,11 @@ namespace stdex
 					return *this;
 #if BYTE_ORDER == BIG_ENDIAN
 				T data_le = HE2LE(data);
-				write(&data_le, sizeof(T));
+				if (write(&data_le, sizeof(T)) < sizeof(T) && ok()) _Unlikely_
 #else
-				write(&data, sizeof(T));
+				if (write(&data, sizeof(T)) < sizeof(T) && ok()) _Unlikely_
 #endif
+					m_state = state_t::fail;
 				return *this;
 			}
 
@@ -392,7 +393,10 @@ namespace stdex
 			///
 			size_t write_array(_In_reads_bytes_opt_(size* count) const void* array, _In_ size_t size, _In_ size_t count)
 			{
-				return write(array, mul(size, count)) / size;
+				size_t length = mul(size, count), num_written = write(array, length);
+				if (num_written < length && ok()) _Unlikely_
+					m_state = state_t::fail;
+				return num_written / size;
 			}
 
 			///
-- 
2.43.0


From 7284d260c9f88c8b25de6af35c5cbabf063bf75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 042/126] fix: reading a damaged string or vector asks for
 gigabytes of memory

---
 include/stdex/stream.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 874e4ae..3aee7fd 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -480,9 +480,9 @@ namespace stdex
 				read_data(num_chars);
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num_chars);
+				constexpr uint32_t buf_chars = 0x400;
+				data.reserve(std::min<uint32_t>(num_chars, buf_chars)); // Do not trust num_chars: stream might be damaged or truncated.
 				for (;;) {
-					constexpr uint32_t buf_chars = 0x400;
 					T buf[buf_chars];
 					uint32_t num_read = static_cast<uint32_t>(read_array(buf, sizeof(T), std::min<uint32_t>(num_chars, buf_chars)));
 					data.append(buf, num_read);
@@ -706,7 +706,7 @@ namespace stdex
 				*this >> num;
 				if (!ok()) _Unlikely_
 					return *this;
-				data.reserve(num);
+				data.reserve(std::min<uint32_t>(num, 0x400)); // Do not trust num: stream might be damaged or truncated.
 				for (uint32_t i = 0; i < num; ++i) {
 					T el;
 					*this >> el;
-- 
2.43.0


From 2296899658d538bdafb74634705f5ecd1b769caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 043/126] fix: idrec: writing a record to a stream hides memory
 shortage and earlier failure

---
 include/stdex/idrec.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..e718a1a 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -459,11 +459,12 @@ namespace stdex {
 			{
 				// Parameter r does not need to be passed by reference. It has only one field (data), which is a reference itself already.
 
+				if (!stream.ok()) _Unlikely_ return stream;
 				stdex::stream::memory_file temp;
 				auto start = r.open(temp);
-				if (!temp.ok()) _Unlikely_ return stream;
-				temp << r.data;
-				r.close(temp, start);
+				if (temp.ok()) temp << r.data;
+				if (temp.ok()) r.close(temp, start);
+				if (!temp.ok()) _Unlikely_ throw std::bad_alloc();
 				temp.seekbeg(0);
 				stream.write_stream(temp);
 
-- 
2.43.0


From 5d7f8615bec574e0c94e878b7e6b3f8f1a6e3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 044/126] fix: idrec::close() reports success when the record
 or its size could not be written

---
 include/stdex/idrec.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index e718a1a..7671599 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -262,6 +262,7 @@ namespace stdex {
 		template <class T_id, class T_size, T_size N_align>
 		stdex::stream::fpos_t close(_In_ stdex::stream::basic_file& stream, _In_ stdex::stream::fpos_t start)
 		{
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			auto end = stream.tell();
 			T_size
 				size      = static_cast<T_size>(end - start - sizeof(T_id) - sizeof(T_size)),
@@ -278,7 +279,9 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(start + sizeof(T_id));
 			stream << size;
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 			stream.seekbeg(end);
+			if (!stream.ok()) _Unlikely_ return stdex::stream::fpos_max;
 
 			return end;
 		}
-- 
2.43.0


From 5dae54ad765d2afd34835e9b6c4fe985c4058e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 045/126] fix: idrec: a record the stream ends within is read
 as complete

---
 include/stdex/idrec.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 7671599..1bd4337 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -526,6 +526,7 @@ namespace stdex {
 					limiter >> r.data;
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
+				if (!stream.ok()) _Unlikely_ return stream; // The stream ended before the record did.
 
 				size += padding<T_size, N_align>(size);
 				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
@@ -553,9 +554,10 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail || !stream.ok()) _Unlikely_ return stream;
 					limiter.skip(limiter.read_limit);
 				}
+				if (!stream.ok()) _Unlikely_ return stream; // The stream ended before the record did.
 				stream.skip(padding<T_size, N_align>(size));
 
 				return stream;
-- 
2.43.0


From 6133293c960749b8132a86b308842738f805b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 046/126] fix: idrec: padded size of a record overflows small
 size types

---
 include/stdex/idrec.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 1bd4337..b789227 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,7 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size) + padding<T_size, N_align>(size)); // The sum might not fit T_size.
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,8 +110,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.skip(size);
+			stream.skip(static_cast<stdex::stream::fsize_t>(size) + padding<T_size, N_align>(size)); // The sum might not fit T_size.
 			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
@@ -496,8 +494,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + static_cast<std::streamoff>(size) + padding<T_size, N_align>(size)); // The sum might not fit T_size.
 
 				return stream;
 			}
@@ -528,8 +525,7 @@ namespace stdex {
 				}
 				if (!stream.ok()) _Unlikely_ return stream; // The stream ended before the record did.
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size)); // The sum might not fit T_size.
 
 				return stream;
 			}
-- 
2.43.0


From 5770da220e7fe65409f0edde5f22fa17dda824b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 047/126] fix: wav: header does not compile off Windows

---
 include/stdex/wav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..ff8c36a 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -511,7 +511,7 @@ namespace stdex
 			_Inout_ cue_ex_vector& cues, stdex::stream::fpos_t block_end = stdex::stream::fpos_max)
 		{
 			static auto cue_less = [](_In_ const cue& a, _In_ const cue& b) { return compare_by_id(a, b) < 0; };
-			static int (__cdecl* cue_cmp)(void const*, void const*) = [](_In_ void const* a, _In_ void const* b) { return compare_by_id(*reinterpret_cast<const cue*>(a), *reinterpret_cast<const cue*>(b)); };
+			static auto cue_cmp = [](_In_ void const* a, _In_ void const* b) { return compare_by_id(*reinterpret_cast<const cue*>(a), *reinterpret_cast<const cue*>(b)); };
 
 			stdex::stream::fpos_t start = dat.tell();
 			while (dat.tell() < block_end) {
-- 
2.43.0


From f32585ca85c026f2e2d6345b95d696f060f1a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 048/126] fix: wav: format and samples written short are
 reported as written

---
 include/stdex/wav.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index ff8c36a..9771537 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -112,7 +112,7 @@ namespace stdex
 						throw std::invalid_argument("extra data too big");
 					dat << static_cast<uint16_t>(size);
 					if (dat.ok())
-						dat.write(data.extra.data(), static_cast<size_t>(size));
+						dat.write_array(data.extra.data(), sizeof(uint8_t), static_cast<size_t>(size));
 				}
 
 				return dat;
@@ -164,7 +164,7 @@ namespace stdex
 			friend inline stdex::stream::basic& operator <<(_In_ stdex::stream::basic& dat, _In_ const data& data)
 			{
 				if (!dat.ok()) _Unlikely_ return dat;
-				dat.write(data.content.data(), static_cast<size_t>(data.content.size()));
+				dat.write_array(data.content.data(), sizeof(uint8_t), static_cast<size_t>(data.content.size()));
 				return dat;
 			}
 
-- 
2.43.0


From 77cbd030185cb2b8f025e9913b83136b316ea5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 049/126] fix: wav: samples lost to memory shortage are
 reported as read

---
 include/stdex/wav.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 9771537..c5962b7 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -134,6 +134,7 @@ namespace stdex
 				if (!dat.ok() || !tmp16) goto error7;
 				data.extra.seek(0);
 				data.extra.write_stream(dat, tmp16);
+				if (dat.state() != stdex::stream::state_t::fail && !data.extra.ok()) _Unlikely_ throw std::bad_alloc();
 				data.extra.truncate();
 
 				return dat;
@@ -172,6 +173,7 @@ namespace stdex
 			{
 				data.content.seek(0);
 				data.content.write_stream(dat);
+				if (dat.state() != stdex::stream::state_t::fail && !data.content.ok()) _Unlikely_ throw std::bad_alloc();
 				data.content.truncate();
 				return dat;
 			}
-- 
2.43.0


From a41cd9166b980bde43ec28168114f8c39969eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 050/126] fix: wav: reading a damaged cue list asks for
 gigabytes of memory

---
 include/stdex/wav.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index c5962b7..629e87c 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -252,8 +252,14 @@ namespace stdex
 			uint32_t num_cues;
 			dat >> num_cues;
 			if (!dat.ok()) _Unlikely_ goto error1;
-			data.resize(num_cues);
-			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
+			data.clear();
+			for (size_t num_read = 0; num_read < num_cues && dat.ok();) {
+				// Do not trust num_cues: stream might be damaged or truncated.
+				size_t num_block = std::min<size_t>(num_cues - num_read, 0x400);
+				data.resize(num_read + num_block);
+				num_read += dat.read_array(data.data() + num_read, sizeof(cue), num_block);
+				data.resize(num_read);
+			}
 			return dat;
 
 		error1:
@@ -525,10 +531,12 @@ namespace stdex
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
-					cues.resize(num_cues);
 					size_t i;
 					bool ordered = true;
 					for (i = 0; i < num_cues; i++) {
+						// Do not trust num_cues: stream might be damaged or truncated.
+						if (i >= cues.size())
+							cues.emplace_back();
 						_dat.read_array(static_cast<cue*>(&cues[i]), sizeof(cue), 1);
 						if (!_dat.ok()) _Unlikely_
 							break;
-- 
2.43.0


From ecffe043d0dd28812c31ab74b4ff329522e1fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 051/126] fix: wav: read_cues() never returns when the stream
 ends, hides failure

---
 include/stdex/wav.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 629e87c..20a79ad 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -488,7 +488,7 @@ namespace stdex
 				}
 
 				// Block was found, but sub-ID is different.
-				end += (align - end) % align;
+				end += stdex::idrec::padding<length_t, align>(size);
 				dat.seekbeg(end);
 			}
 			return false;
@@ -527,6 +527,7 @@ namespace stdex
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
+					stdex::stream::fpos_t found_block_end = dat.tell() + size;
 					stdex::stream::file_window _dat(dat, dat.tell(), size);
 					uint32_t num_cues;
 					_dat >> num_cues;
@@ -546,11 +547,19 @@ namespace stdex
 					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
+					if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
+					dat.seekbeg(found_block_end + stdex::idrec::padding<length_t, align>(size));
+					if (!dat.ok()) _Unlikely_ return false;
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
+				else
+					break;
 			}
 
 			// Cues are loaded. Add other data.
 			dat.seekbeg(start);
+			if (!dat.ok()) _Unlikely_ return false;
 			while (dat.tell() < block_end) {
 				stdex::stream::fpos_t found_block_end;
 				if (find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end)) {
@@ -596,11 +605,16 @@ namespace stdex
 						else if (!stdex::idrec::ignore<length_t, align>(dat)) _Unlikely_
 							return false;
 					}
+					if (dat.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 				}
+				else if (dat.state() == stdex::stream::state_t::fail) _Unlikely_
+					return false;
+				else
+					break;
 			}
 
 			dat.seekbeg(start);
-			return true;
+			return dat.ok();
 		}
 
 		inline _Success_(return != 0) bool remove_cues(
-- 
2.43.0


From 1587b600ff6cf17f887e22cc7c7f0e4b68c2a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 052/126] fix: idrec: reading a record from a stream hides
 memory shortage

---
 include/stdex/idrec.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index b789227..a24e247 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -521,7 +521,11 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
-					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
+					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ {
+						if (stream.state() != stdex::stream::state_t::fail)
+							throw std::bad_alloc(); // The stream did not fail, the data did not get the memory required.
+						return stream;
+					}
 				}
 				if (!stream.ok()) _Unlikely_ return stream; // The stream ended before the record did.
 
@@ -550,6 +554,8 @@ namespace stdex {
 				{
 					stdex::stream::limiter limiter(stream, size, 0);
 					limiter >> r.data;
+					if (limiter.state() == stdex::stream::state_t::fail && stream.state() != stdex::stream::state_t::fail) _Unlikely_
+						throw std::bad_alloc(); // The stream did not fail, the data did not get the memory required.
 					if (limiter.state() == stdex::stream::state_t::fail || !stream.ok()) _Unlikely_ return stream;
 					limiter.skip(limiter.read_limit);
 				}
-- 
2.43.0


From b90b24dc6777b55b1c85e720f9c18ceaa28e248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 053/126] fix: wav: remove_cues() keeps the cues and removes
 the rest, hides failure

---
 include/stdex/wav.hpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 20a79ad..3a13b18 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -620,7 +620,8 @@ namespace stdex
 		inline _Success_(return != 0) bool remove_cues(
 			_Inout_ stdex::stream::basic_file& input,
 			_Inout_ stdex::stream::basic_file& output,
-			_In_ stdex::stream::fpos_t block_end = stdex::stream::fpos_max)
+			_In_ stdex::stream::fpos_t block_end = stdex::stream::fpos_max,
+			_In_ unsigned int max_depth = 64)
 		{
 			static id_t removable[] = {
 				cue_vector_record::id(),
@@ -633,22 +634,19 @@ namespace stdex
 				id_t id;
 				input >> id;
 				if (!input.ok()) break;
-				for (size_t i = 0; i < _countof(removable); i++)
-					if (id == removable[i])
-						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
+				if (std::find(std::begin(removable), std::end(removable), id) != std::end(removable)) {
+					if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+						return false;
+					continue;
+				}
 
-			remove:
 				length_t size;
 				input >> size;
 				if (!input.ok()) _Unlikely_ return false;
+				stdex::stream::fpos_t input_end = input.tell() + size;
 				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
+				if ((id != header::record::id() && id != list::record::id()) || size < sizeof(id_t)) {
+					// Element does not contain other elements and may be copied.
 					if (!output.ok()) _Unlikely_ return false;
 					output.write_stream(input, size);
 					if (!input.ok()) _Unlikely_ return false;
@@ -658,24 +656,30 @@ namespace stdex
 						input.seekcur(size);
 				}
 				else {
-					// ID is all uppercase. Needs recursive treatment.
+					// Element contains other elements. Needs recursive treatment.
+					if (!max_depth) _Unlikely_ return false;
 					id_t id3;
 					input >> id3;
 					if (!input.ok()) _Unlikely_ return false;
 					output << id3;
 					if (!output.ok()) _Unlikely_ return false;
 					stdex::stream::fpos_t end = output.tell();
-					if (!remove_cues(input, output, input.tell() + size - sizeof(id_t))) _Unlikely_
+					if (!remove_cues(input, output, input_end, max_depth - 1)) _Unlikely_
 						return false;
 					if (end != output.tell())
 						stdex::idrec::close<id_t, length_t, align>(output, start);
 					else
 						output.seekbeg(start);
+					input_end += stdex::idrec::padding<length_t, align>(size);
+					if (input.tell() < input_end)
+						input.seekbeg(input_end);
 				}
+				if (!output.ok()) _Unlikely_ return false;
 			}
+			if (input.state() == stdex::stream::state_t::fail) _Unlikely_ return false;
 
 			output.truncate();
-			return true;
+			return output.ok();
 		}
 	}
 }
-- 
2.43.0


From 77c16d0a0bab027feec86ce46ce246afad3a8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 054/126] fix: diag_file: lock(), unlock() and truncate() of an
 empty list crash

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3aee7fd..3da2435 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4404,8 +4404,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4417,8 +4419,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4442,8 +4446,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From 0074b650bde6f07901acebee96699495ec994973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 055/126] fix: sanitizing_allocator, sanitizing_blob: clearing
 of memory is optimized away

---
 include/stdex/memory.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..db0abc2 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "compat.hpp"
+#include <string.h>
 #include <memory>
 
 #if defined(__GNUC__)
@@ -108,6 +109,7 @@ namespace stdex
 			SecureZeroMemory(p, sizeof(T) * n);
 #else
 			memset(p, 0, sizeof(T) * n);
+			__asm__ __volatile__("" : : "r"(p) : "memory"); // Prevent compiler from optimizing memset() away.
 #endif
 			std::allocator<T>::deallocate(p, n);
 		}
@@ -133,6 +135,7 @@ namespace stdex
 			SecureZeroMemory(m_data, N);
 #else
 			memset(m_data, 0, N);
+			__asm__ __volatile__("" : : "r"(m_data) : "memory"); // Prevent compiler from optimizing memset() away.
 #endif
 		}
 
-- 
2.43.0


From e80ef4f838a03bf12c593d2e6f20b48fe9c7f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 056/126] fix: file::lock() reports success when the section is
 not locked

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3da2435..36f85f0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2955,8 +2955,8 @@ namespace stdex
 					if (length > std::numeric_limits<off64_t>::max())
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
-					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
+					if (lseek64(m_h, orig, SEEK_SET) < 0) _Unlikely_
+						m_state = state_t::fail;
 					return;
 				}
 #endif
-- 
2.43.0


From f0b72ed4de8d8337015ac51b3943294d059f60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 057/126] fix: file::set_atime(), set_mtime(): time is taken as
 seconds

---
 include/stdex/stream.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 36f85f0..78867c2 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3050,6 +3050,15 @@ namespace stdex
 				ft.dwHighDateTime = static_cast<DWORD>((t >> 32) & 0xffffffff);
 				ft.dwLowDateTime = static_cast<DWORD>(t & 0xffffffff);
 			}
+#else
+			static struct timespec tp2ts(_In_ time_point tp)
+			{
+				auto sec = std::chrono::floor<std::chrono::seconds>(tp);
+				struct timespec ts;
+				ts.tv_sec = static_cast<time_t>(sec.time_since_epoch().count());
+				ts.tv_nsec = static_cast<long>(std::chrono::duration_cast<std::chrono::nanoseconds>(tp - sec).count());
+				return ts;
+			}
 #endif
 
 			virtual time_point ctime() const
@@ -3116,7 +3125,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3136,7 +3145,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From 32a3a59ba57850b94af8ca2254d1e2aa68e8d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 058/126] fix: cached_file: constructor failing to open the
 file crashes

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 78867c2..f8859ea 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1854,6 +1854,7 @@ namespace stdex
 #pragma warning(suppress: 26495) // The delayed init call will finish initializing the class.
 			explicit cache(_In_ size_t cache_size = default_cache_size) :
 				basic(state_t::fail),
+				m_source(nullptr),
 				m_cache(cache_size)
 			{}
 
-- 
2.43.0


From 496a82cbc2dc258fa88958dc30f1ff3d79a2fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 059/126] fix: file::unlock() hides that the file position is
 lost

---
 include/stdex/stream.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f8859ea..481ac57 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2982,12 +2982,10 @@ namespace stdex
 						throw std::invalid_argument("file offset too big");
 					if (length > std::numeric_limits<off64_t>::max())
 						throw std::invalid_argument("file section length too big");
-					if (lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_ULOCK, static_cast<off64_t>(length)) >= 0) {
-						lseek64(m_h, orig, SEEK_SET);
-						m_state = state_t::ok;
-						return;
-					}
-					lseek64(m_h, orig, SEEK_SET);
+					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_ULOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
+					if (lseek64(m_h, orig, SEEK_SET) < 0) _Unlikely_
+						m_state = state_t::fail;
+					return;
 				}
 #endif
 				m_state = state_t::fail;
-- 
2.43.0


From 614614e4ee75c7b4099b9266bfcc40abe99c5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 060/126] fix: vector_queue::push_front() overwrites the head
 unless the capacity is a power of 2

---
 include/stdex/vector_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..fb2b344 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,7 +316,7 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = v;
@@ -332,7 +332,7 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = std::move(v);
-- 
2.43.0


From 24d0fbbf286f9bf3ea97392ad8cdba3ba040ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 061/126] fix: vector_queue::push_front() corrupts the queue
 when the element cannot be copied

---
 include/stdex/vector_queue.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index fb2b344..2795d2a 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,10 +316,11 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = v;
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = v;
 			return m_head;
 		}
 
@@ -332,10 +333,11 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(m_size_max - 1);
+			size_type pos = abs(m_size_max - 1);
+			m_data[pos] = std::move(v);
+			m_head = pos;
 			if (m_count < m_size_max)
 				m_count++;
-			m_data[m_head] = std::move(v);
 			return m_head;
 		}
 
-- 
2.43.0


From ed081b482ee2e0512f30b4a082f27e045ffdf5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 062/126] fix: vector_queue: assigning leaks memory, crashes
 after a failed copy

---
 include/stdex/vector_queue.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 2795d2a..c10c35c 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -67,12 +67,11 @@ namespace stdex
 		/// \param[in] other  Queue to copy from
 		///
 		vector_queue(_In_ const vector_queue<value_type> &other) :
-			m_data(new value_type[other.m_size_max]),
-			m_head(other.m_head),
-			m_count(other.m_count),
-			m_size_max(other.m_size_max)
+			vector_queue(other.m_size_max)
 		{
 			// Copy elements.
+			m_head = other.m_head;
+			m_count = other.m_count;
 			for (size_type i = 0; i < m_count; i++) {
 				size_type i_l = abs(i);
 				m_data[i_l] =  other.m_data[i_l];
@@ -113,17 +112,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_In_ const vector_queue<value_type> &other)
 		{
 			if (this != std::addressof(other)) {
-				m_head     = other.m_head;
-				m_count    = other.m_count;
-				m_size_max = other.m_size_max;
-
-				// Copy elements.
-				if (m_data) delete [] m_data;
-				m_data = new value_type[other.m_size_max];
-				for (size_type i = 0; i < m_count; i++) {
-					size_type i_l = abs(i);
-					m_data[i_l] =  other.m_data[i_l];
-				}
+				*this = vector_queue<value_type>(other);
 			}
 
 			return *this;
@@ -137,6 +126,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From f4bf338863f4678d1d2209088dd7ca10de96ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 063/126] fix: formatted text loses its last character when it
 fills the stack buffer

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..da883af 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2672,7 +2672,7 @@ namespace stdex
 
 		// Try with stack buffer first.
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
-- 
2.43.0


From 51d891cd086cdcc00520e3fa3941d9c92e58ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 064/126] fix: formatting a long text depends on a stale errno
 and leaves the string resized on failure

---
 include/stdex/string.hpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index da883af..7f6496d 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2671,6 +2671,7 @@ namespace stdex
 		T buf[1024 / sizeof(T)];
 
 		// Try with stack buffer first.
+		errno = 0;
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
 		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
@@ -2695,22 +2696,40 @@ namespace stdex
 			throw std::runtime_error("failed to format string");
 #else
 		size_t offset = str.size();
-		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
-			case EOVERFLOW:
+		try {
+			for (size_t capacity = _countof(buf);;) {
+				if (count >= 0) {
+					// The length is known.
+					capacity = static_cast<size_t>(count) + 1;
+				}
+				else {
+					switch (errno) {
+					case 0:
+					case EOVERFLOW:
+						// The length is unknown (wide strings only): try with a bigger buffer.
+						if (sizeof(T) == 1 || capacity > INT_MAX / 2)
+							throw std::runtime_error("failed to format string");
+						capacity *= 2;
+						break;
+					case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+					case EILSEQ: throw std::runtime_error("encoding error");
+					default: throw std::runtime_error("failed to format string");
+					}
+				}
 				// Allocate on heap and retry.
 				str.resize(offset + capacity);
+				errno = 0;
 				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
+				if (0 <= count && static_cast<size_t>(count) < capacity) {
 					str.resize(offset + static_cast<size_t>(count));
 					return static_cast<size_t>(count);
 				}
-				break;
-			case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-			case EILSEQ: throw std::runtime_error("encoding error");
-			default: throw std::runtime_error("failed to format string");
 			}
 		}
+		catch (...) {
+			str.resize(offset);
+			throw;
+		}
 #endif
 		return static_cast<size_t>(count);
 	}
-- 
2.43.0


From bfd8e5b55b53f32506ad90dbec21c99e5288a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 065/126] fix: aosn_timestamp::from_system() takes microseconds
 for milliseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..0c35d24 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 87236de70b66b5feb1b14ee1a2c15cdc99946a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 066/126] fix: aosn_timestamp::to_system() leaves day of the
 year 0 and time zone uninitialised

---
 include/stdex/chrono.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 0c35d24..a33821d 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -10,6 +10,7 @@
 #include "system.hpp"
 #include "locale.hpp"
 #include <stdint.h>
+#include <string.h>
 #include <chrono>
 #include <ctime>
 #include <memory>
@@ -309,6 +310,7 @@ namespace stdex {
 				uint16_t millisecond;
 				int32_t year;
 				to_dmy(tp, &day, &month, &year, &hour, &minute, &second, &millisecond);
+				memset(&date, 0, sizeof(date));
 				date.tm_sec = second;
 				date.tm_min = minute;
 				date.tm_hour = hour;
@@ -316,8 +318,11 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = static_cast<int>((to_date(tp) - aosn_date::from_dmy(1, 1, year)).count());
 				date.tm_isdst = 0;
+#ifndef _WIN32
+				date.tm_zone = const_cast<char*>("GMT");
+#endif
 			}
 
 #ifdef _WIN32
-- 
2.43.0


From 10e52ab91016a65b945a34e01e356de8d828f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 067/126] fix: aosn_timestamp::to_str() never ends when the
 text is empty, releases an array as a single object

---
 include/stdex/chrono.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index a33821d..f19d5c0 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -422,7 +422,9 @@ namespace stdex {
 			{
 				struct tm date;
 				to_system(tp, date);
-				std::basic_string<char, TR, AX> str;
+				std::basic_string<char, TR, AX> str, padded(format);
+				padded += ' '; // Result of strftime() is never empty: 0 means the buffer is too small.
+				format = padded.c_str();
 				char stack_buffer[1024 / sizeof(char)];
 				size_t n;
 #if _WIN32
@@ -431,19 +433,19 @@ namespace stdex {
 				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
+					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
 #else
 					n = strftime_l(buf.get(), num_chars, format, &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
@@ -455,7 +457,9 @@ namespace stdex {
 			{
 				struct tm date;
 				to_system(tp, date);
-				std::basic_string<wchar_t, TR, AX> str;
+				std::basic_string<wchar_t, TR, AX> str, padded(format);
+				padded += L' '; // Result of wcsftime() is never empty: 0 means the buffer is too small.
+				format = padded.c_str();
 				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
 				size_t n;
 #if _WIN32
@@ -464,19 +468,19 @@ namespace stdex {
 				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
 #endif
 				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
+					str.assign(stack_buffer, stack_buffer + n - 1);
 					return str;
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
+					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #else
 					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #endif
 					if (n) {
-						str.assign(buf.get(), buf.get() + n);
+						str.assign(buf.get(), buf.get() + n - 1);
 						return str;
 					}
 					num_chars = stdex::mul(num_chars, 2);
-- 
2.43.0


From 31ae3d9e43de679ba132633b78e15356d22c8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 068/126] fix: HTML document loses text preceding a marked
 section

---
 include/stdex/html.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..3ad182e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1694,6 +1694,9 @@ namespace stdex
 					}
 
 					if (m_condition_start.match(source, i, num_chars)) {
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
+
 						auto condition_src(replace_entities(source + m_condition_start.condition.start, m_condition_start.condition.size()));
 						if (stdex::strncmp(condition_src.data(), condition_src.size(), "CDATA", SIZE_MAX) == 0)
 							m_is_cdata = true;
-- 
2.43.0


From 3a0029ac6a1eee8778bb65367e91de385cd1a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 069/126] fix: HTML document takes the end of CDATA for the end
 of another marked section

---
 include/stdex/html.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 3ad182e..e404acc 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1702,8 +1702,6 @@ namespace stdex
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From f848f6d079e6e228a4281926ab4a3e3b97dc4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 070/126] fix: HTML document shows the rest of an ignored
 section after a nested section ends

---
 include/stdex/html.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index e404acc..62d9c90 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1681,6 +1681,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
-- 
2.43.0


From e83190d086e0c5076c7d4c24c336e434d5379d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 071/126] fix: HTML document takes everything from <![if ...]>
 to the next [ for a condition

---
 include/stdex/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..4885faa 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8307,6 +8307,10 @@ namespace stdex
 							this->interval.end++;
 							return true;
 						}
+						if (text[this->interval.end] == '>') {
+							// This is a declaration: "<![if ...]>"
+							break;
+						}
 						if (ctype.is(ctype.space, text[this->interval.end]))
 							this->interval.end++;
 						else
-- 
2.43.0


From b670b8cf016e08b162a3af6d8faee14fa24e5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 072/126] fix: HTML parser dereferences null pointer on an
 element that is never ended

---
 include/stdex/html.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 62d9c90..59edf5e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2543,23 +2543,26 @@ namespace stdex
 							{
 								// Non-localizable
 								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
+								const size_t content_end =
+									s_end ? s_end->interval.start :
+									end != m_document.m_sequences.end() ? (*end)->interval.start :
+									m_document.source().size();
 
-								if (s->interval.end < s_end->interval.start) {
+								if (s->interval.end < content_end) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, content_end - s->interval.end,
 												0,
-												m_offset->get()))),
+												m_offset != end ? m_offset->get() : nullptr))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, content_end, m_offset != end ? m_offset->get() : nullptr);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
@@ -2619,7 +2622,7 @@ namespace stdex
 			///
 			/// Parses CSS
 			///
-			text_token<T, TR, AX>* parse_css(size_t start, size_t end)
+			text_token<T, TR, AX>* parse_css(size_t start, size_t end, _In_opt_ stdex::html::sequence* sequence)
 			{
 				stdex::interval<size_t> section, content;
 				std::unique_ptr<text_token<T, TR, AX>> token(
@@ -2627,7 +2630,7 @@ namespace stdex
 						token_t::complete,
 						nullptr, 0,
 						0,
-						m_offset->get()));
+						sequence));
 
 				for (;;) {
 					if (m_css_comment.match(m_source, start, end)) {
@@ -2650,7 +2653,7 @@ namespace stdex
 							new url_token<T, TR, AX>(
 								nullptr, 0,
 								token_url_t::css,
-								m_offset->get()));
+								sequence));
 						css_unescape(t_url->url, m_source + content.start, content.size());
 						token->text.append(m_source + start, content.start - start);
 						append_token(std::move(t_url), token->text);
-- 
2.43.0


From 53a72b411203cdd962e171f05025b6b8a144111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 073/126] fix: parsing HTML by chunks depends on where the
 chunks are cut

---
 include/stdex/html.hpp   | 29 +++++++++++++++++++++++++----
 include/stdex/parser.hpp |  5 +++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 59edf5e..1e51de2 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1658,8 +1658,20 @@ namespace stdex
 			{
 				stdex_assert(source || !num_chars);
 				m_source.append(source, stdex::strnlen(source, num_chars));
-				source = m_source.data();
-				num_chars = m_source.size();
+				parse(false);
+			}
+
+		protected:
+			///
+			/// Parses HTML source code not parsed yet
+			///
+			/// \param[in] final  Is source code complete? When `false`, parsing stops at a tag the source code to follow might continue.
+			///
+			void parse(_In_ bool final)
+			{
+				const T* source = m_source.data();
+				const size_t num_chars = m_source.size();
+				const int flags = final ? stdex::parser::match_default : stdex::parser::match_partial;
 
 				for (size_t i = m_num_parsed; i < num_chars;) {
 					if (m_is_cdata || m_is_rcdata) {
@@ -1719,7 +1731,8 @@ namespace stdex
 					if (m_is_special_element) {
 						auto parent = active_element();
 						stdex_assert(parent);
-						if (m_tag.match(source, i, num_chars) &&
+						const bool is_tag = m_tag.match(source, i, num_chars, flags);
+						if (is_tag &&
 							m_tag.type == stdex::parser::html_sequence_t::element_end &&
 							element::element_code(source + m_tag.name.start, m_tag.name.size()) == parent->code)
 						{
@@ -1733,10 +1746,12 @@ namespace stdex
 							m_is_special_element = false;
 							continue;
 						}
+						if (!is_tag && !final && source[i] == '<')
+							break;
 						goto next_char;
 					}
 
-					if (m_tag.match(source, i, num_chars)) {
+					if (m_tag.match(source, i, num_chars, flags)) {
 						if (m_num_parsed < i)
 							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
 						i = m_num_parsed = m_tag.interval.end;
@@ -1859,6 +1874,10 @@ namespace stdex
 						continue;
 					}
 
+					// Tags match unless source code ends before the tag does.
+					if (!final && source[i] == '<')
+						break;
+
 				next_char:
 					if (m_any_char.match(source, i, num_chars)) {
 						// Skip any character, but don't declare it as parsed yet. It might be a part of unfinished tag.
@@ -1869,11 +1888,13 @@ namespace stdex
 				}
 			}
 
+		public:
 			///
 			/// Finalizes document when no more appending is planned
 			///
 			void finalize()
 			{
+				parse(true);
 				size_t i = m_source.size();
 				if (m_num_parsed < i)
 					m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4885faa..5f7df11 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -72,6 +72,7 @@ namespace stdex
 		constexpr int match_default = 0;
 		constexpr int match_case_insensitive = 0x1;
 		constexpr int match_multiline = 0x2;
+		constexpr int match_partial = 0x4; ///< More text will follow. Do not match when the text following might change the match.
 
 		///
 		/// Base template for all parsers
@@ -8234,6 +8235,10 @@ namespace stdex
 								// Skip whitespace.
 								for (; this->interval.end < end && text[this->interval.end] && ctype.is(ctype.space, text[this->interval.end]); this->interval.end++);
 							}
+							else if (flags & match_partial) {
+								// The end quote is yet to come.
+								goto error;
+							}
 						}
 						else {
 							// This attribute has no value.
-- 
2.43.0


From 614029612d1c2adda6bc1c6cb8d3927c04d96e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 074/126] fix: css_unescape() never ends when the string ends
 with a backslash

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 1e51de2..a36b262 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -444,6 +444,8 @@ namespace stdex
 					default: dst += src[i++];
 					}
 				}
+				else
+					dst += src[i++];
 			}
 		}
 
-- 
2.43.0


From a7a0dac77de9265b196e274a2237ae9ed89cabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 075/126] fix: HTML rebuilt does not escape quotes in attribute
 values

---
 include/stdex/html.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index a36b262..26c7057 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2102,6 +2102,7 @@ namespace stdex
 			has_text = 1 << 1,   ///< Token text contains text
 			is_title = 1 << 2,   ///< Token text contains title text
 			is_bullet = 1 << 3,  ///< Token text contains bullet text
+			is_attribute = 1 << 4, ///< Token text is an attribute value
 		};
 
 		///
@@ -2288,6 +2289,10 @@ namespace stdex
 							source += root[i++];
 					}
 				}
+				else if (t->text_type & is_attribute) {
+					// Attribute values require quotes to be escaped too.
+					escape(source, t->text.data(), t->text.size());
+				}
 				else if (t->text_type & has_text) {
 					// Token contains no references to other tokens. But, it does contain text that requires escaping.
 					escape_min(source, t->text.data(), t->text.size());
@@ -2535,7 +2540,7 @@ namespace stdex
 									std::unique_ptr<text_token<T, TR, AX>> t_value(new text_token<T, TR, AX>(
 										token_t::complete,
 										nullptr, 0,
-										has_text | is_title,
+										has_text | is_title | is_attribute,
 										s.get()));
 									stdex::mapping<size_t> rel_value(a.value.start, 0);
 									t_value->mapping.push_back(rel_value);
-- 
2.43.0


From f7bdaa785299b9f2b1dc9b353be46fbb58dc5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 076/126] fix: mapping of HTML text offsets all but the first
 text twice

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 26c7057..cdcacd1 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2498,7 +2498,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From 1ea289cbd852684d5ce8b85196258dc7a1534032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 077/126] fix: HTML text may forge a token tag using SGML
 entities

---
 include/stdex/html.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index cdcacd1..198ec2c 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2498,7 +2498,12 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
+						const size_t text_start = token->text.size();
 						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(s->interval.start, 0), &token->mapping);
+						// Entities may introduce token_tag_start and token_tag_end chars.
+						for (size_t i = text_start; i < token->text.size(); ++i)
+							if (token->text[i] == static_cast<T>(token_tag_start) || token->text[i] == static_cast<T>(token_tag_end))
+								token->text[i] = ' ';
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From e4e342832896691b6d4e6ce8afe7a61c9cf90e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 078/126] fix: HTML tag such as </p/> is parsed until memory
 runs out

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5f7df11..acf4c62 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8206,7 +8206,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->m_ident.interval.end] == '='))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From 55f5db472d05839940c672ca5e9d7ee7e93e01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 079/126] fix: strcatftime() never ends when the text is empty,
 leaves the string resized on failure

---
 include/stdex/string.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 7f6496d..bd4552e 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2852,23 +2852,34 @@ namespace stdex
 	{
 		T buf[1024 / sizeof(T)];
 
+		// With something added, strftime() never returns an empty text: 0 means the buffer is too small.
+		std::basic_string<T, TR, AX> padded(format);
+		padded += ' ';
+		format = padded.c_str();
+
 		// Try with stack buffer first.
 		size_t count = strftime(buf, _countof(buf), format, time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf, count - 1);
 			return;
 		}
 		size_t offset = str.size();
-		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			// Allocate on heap and retry.
-			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
-			if (count) {
-				str.resize(offset + count);
-				return;
+		try {
+			for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
+				// Allocate on heap and retry.
+				str.resize(offset + capacity);
+				count = strftime(&str[offset], capacity + 1, format, time, locale);
+				if (count) {
+					str.resize(offset + count - 1);
+					return;
+				}
 			}
 		}
+		catch (...) {
+			str.resize(offset);
+			throw;
+		}
 	}
 
 	///
-- 
2.43.0


From 7b40338e4b8c5f722d7fb45a06550caee8c20e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 080/126] fix: fifo: blocks allocated as arrays are released as
 single objects

---
 include/stdex/stream.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 481ac57..657196f 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4216,7 +4216,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4245,7 +4245,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4254,15 +4254,17 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					std::unique_ptr<uint8_t[]> block(new uint8_t[sizeof(node_t) + length]);
+					auto n = reinterpret_cast<node_t*>(block.get());
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
+						m_tail = m_tail->next = n;
 					else
-						m_head = m_tail = n.release();
+						m_head = m_tail = n;
+					block.release();
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4278,7 +4280,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From 92831db8834f035c57afe76ab6323f4708249c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 081/126] fix: http_weighted_value keeps the factor of the
 previous match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index acf4c62..167a0d6 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6581,6 +6581,7 @@ namespace stdex
 					return false;
 				}
 
+				factor.invalidate();
 				while (this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end])) this->interval.end++;
 				if (this->interval.end < end && text[this->interval.end] == ';') {
 					this->interval.end++;
-- 
2.43.0


From 8587dcbd56a2bae406e7db55a25a8f990bffbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 082/126] fix: http_url_parameter reads past the end of the
 text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 167a0d6..2367559 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6249,7 +6249,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From e9d9f6662fe123404381df1e0981ea6a819f0594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 083/126] fix: http_url_path matches past the end of the text

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2367559..a75c05a 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6174,7 +6174,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 9bef414bb69a947b8bfad02ea5465b42aaa5d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 084/126] fix: http_url: empty port is port 0

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a75c05a..c2317d2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6325,6 +6325,8 @@ namespace stdex
 						this->interval.end++;
 						if (port.match(text, this->interval.end, end, flags))
 							this->interval.end = port.interval.end;
+						else
+							port.value = 80;
 					}
 					else {
 						port.invalidate();
-- 
2.43.0


From c9051998a75e9cb6706eb103cbb7ed396df0d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 085/126] fix: http_parameter takes values without =, refuses
 space after it

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c2317d2..63d08f2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5865,8 +5865,9 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
-					while (m_space.match(text, this->interval.end, end, flags))
-						this->interval.end = m_space.interval.end;
+					goto error;
+				while (m_space.match(text, this->interval.end, end, flags))
+					this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
 					this->interval.end = value.interval.end;
 				else
-- 
2.43.0


From 2b427445520f4ecde136c2c53c1e086f4a5ccca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 086/126] fix: http_quoted_string refuses non-ASCII characters

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 63d08f2..cfe5bb2 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5657,7 +5657,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && static_cast<unsigned char>(text[this->interval.end]) >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From aae3da0f3db504d2f19064926b4bcff74d271421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 087/126] fix: http_weight: many decimals overflow to garbage
 or not a number

---
 include/stdex/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index cfe5bb2..f6ae09c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6484,8 +6484,10 @@ namespace stdex
 							for (;;) {
 								if (this->interval.end < end && text[this->interval.end]) {
 									if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-										decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
-										decimalni_del_n *= 10;
+										if (decimalni_del_n <= SIZE_MAX / 10) {
+											decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+											decimalni_del_n *= 10;
+										}
 										this->interval.end++;
 									}
 									else
-- 
2.43.0


From 282de75cb20324665c00918501a03539f48242fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 088/126] fix: http_agent keeps the version of the previous
 match

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index f6ae09c..7d2d5ad 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6773,6 +6773,8 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 				type.start = this->interval.end;
+				version.start = 1;
+				version.end = 0;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if (text[this->interval.end] == '/') {
-- 
2.43.0


From 11a9e99e0265284fa20cd5b9d05d10802e29587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 089/126] fix: IPv6 address value is always ::

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 7d2d5ad..39415a8 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2707,7 +2707,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(static_cast<uint16_t>(x));
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 9f81b581615a59871b4cea48d0bc19918f1857b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 090/126] fix: IPv6 address takes the colon behind it

---
 include/stdex/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 39415a8..9013833 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2642,6 +2642,7 @@ namespace stdex
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
+					const size_t component_end = this->interval.end;
 
 					if (m_separator->match(text, this->interval.end, end, flags)) {
 						// : found
@@ -2656,6 +2657,7 @@ namespace stdex
 							}
 							else {
 								// More than one zero compaction
+								this->interval.end = component_end;
 								break;
 							}
 						}
@@ -2702,6 +2704,8 @@ namespace stdex
 					if (is_empty) {
 						if (compaction_i != SIZE_MAX) {
 							// Zero compaction active: no sweat.
+							if (compaction_i != i)
+								this->interval.end = component_end;
 							break;
 						}
 						goto error;
-- 
2.43.0


From 757331678d1d12b71c609c89a2d71995f91e988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 091/126] fix: creditor reference of letters overflows the
 buffer

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9013833..9507109 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5006,7 +5006,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From aa3b9a34d0f06524284c1117339bb1d180516c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 092/126] fix: creditor reference takes the space behind it

---
 include/stdex/parser.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9507109..a6213f4 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4980,11 +4980,15 @@ namespace stdex
 				this->check_digits[2] = 0;
 
 				for (n = 0;;) {
+					const size_t group_end = this->interval.end;
 					if (m_space && m_space->match(text, this->interval.end, end, flags))
 						this->interval.end = m_space->interval.end;
 					for (size_t j = 0; j < 4; ++j) {
-						if (this->interval.end >= end || !text[this->interval.end])
+						if (this->interval.end >= end || !text[this->interval.end]) {
+							if (!j)
+								this->interval.end = group_end;
 							goto out;
+						}
 						T chr = case_insensitive ? ctype.toupper(text[this->interval.end]) : text[this->interval.end];
 						if (('0' <= chr && chr <= '9') || ('A' <= chr && chr <= 'Z')) {
 							if (n >= _countof(reference) - 1)
@@ -4992,8 +4996,11 @@ namespace stdex
 							this->reference[n++] = chr;
 							this->interval.end++;
 						}
-						else
+						else {
+							if (!j)
+								this->interval.end = group_end;
 							goto out;
+						}
 					}
 				}
 			out:
-- 
2.43.0


From f5702333b631b5145edc39d9998065cf0207f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 093/126] fix: SI reference: check digit of three parts is
 looked for in the second one

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a6213f4..4e0c6fd 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5478,7 +5478,7 @@ namespace stdex
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
 				if (control == 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From 1c910ca359cc84255a318088995c90660584b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 094/126] fix: SI reference: valid check digit 0 of two and
 three parts is refused

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4e0c6fd..3c29e0c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5455,7 +5455,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5476,7 +5476,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part3[num_part3 - 1] - '0';
 			}
-- 
2.43.0


From 70af8097765c083b2600a61c751a451146a35e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 095/126] fix: phone number without parentheses crashes

---
 include/stdex/parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 3c29e0c..8c0c03c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4528,8 +4528,10 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis)
+					m_lparenthesis->invalidate();
+				if (m_rparenthesis)
+					m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From 2d5f96af9b33ae11252a38d883e73a1de030db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 096/126] fix: monetary numeral without signs crashes

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 8c0c03c..ccb17a1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2264,17 +2264,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From b7bcf0315c9339c9ebac49fa075c0bd702622b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 097/126] fix: emoticon loses which mouth was matched

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index ccb17a1..2338de1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3941,6 +3941,7 @@ namespace stdex
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
@@ -3953,6 +3954,7 @@ namespace stdex
 						if (nose) nose->invalidate();
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
+						mouth->hit_offset = hit_offset;
 						this->interval.start = start;
 						return true;
 					}
-- 
2.43.0


From fa4c4cbd2668dbf6eb0cfc9f1845ce861fff6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 098/126] fix: FTP URL with username only is refused

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2338de1..b7fb162 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3551,7 +3551,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From 79420c85e159e389c5870e7a8316dd0235aceef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 099/126] fix: IPv4 address value is in the byte order of the
 host

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b7fb162..774ffaf 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2443,7 +2443,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(static_cast<uint32_t>(value.s_addr));
 				this->interval.start = start;
 				return true;
 
-- 
2.43.0


From 7b996d9289eb03affba6aeb28c8f8e6b6068fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 100/126] fix: JSON string: surrogate pairs are not put
 together

---
 include/stdex/parser.hpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 774ffaf..6426603 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7312,22 +7312,41 @@ namespace stdex
 								m_hex->interval.size() == 4 /* JSON requests 4-digit Unicode sequneces: \u.... */)
 							{
 								stdex_assert(m_hex->value <= 0xffff);
+								uint32_t chr = static_cast<uint32_t>(m_hex->value);
+								this->interval.end = m_hex->interval.end;
+								if (sizeof(T) != 2 &&
+									0xd800 <= chr && chr <= 0xdbff &&
+									m_escape->match(text, this->interval.end, end, flags) &&
+									m_uni->match(text, m_escape->interval.end, end, flags) &&
+									m_hex->match(text, m_uni->interval.end, std::min(m_uni->interval.end + 4, end), flags | match_case_insensitive) &&
+									m_hex->interval.size() == 4 &&
+									0xdc00 <= m_hex->value && m_hex->value <= 0xdfff)
+								{
+									// Surrogate pair
+									chr = 0x10000 + ((chr - 0xd800) << 10) + static_cast<uint32_t>(m_hex->value - 0xdc00);
+									this->interval.end = m_hex->interval.end;
+								}
 								if (sizeof(T) == 1) {
-									if (m_hex->value > 0x7ff) {
-										value += (T)(0xe0 | ((m_hex->value >> 12) & 0x0f));
-										value += (T)(0x80 | ((m_hex->value >> 6) & 0x3f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									if (chr > 0xffff) {
+										value += (T)(0xf0 | ((chr >> 18) & 0x07));
+										value += (T)(0x80 | ((chr >> 12) & 0x3f));
+										value += (T)(0x80 | ((chr >> 6) & 0x3f));
+										value += (T)(0x80 | (chr & 0x3f));
 									}
-									else if (m_hex->value > 0x7f) {
-										value += (T)(0xc0 | ((m_hex->value >> 6) & 0x1f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									else if (chr > 0x7ff) {
+										value += (T)(0xe0 | ((chr >> 12) & 0x0f));
+										value += (T)(0x80 | ((chr >> 6) & 0x3f));
+										value += (T)(0x80 | (chr & 0x3f));
+									}
+									else if (chr > 0x7f) {
+										value += (T)(0xc0 | ((chr >> 6) & 0x1f));
+										value += (T)(0x80 | (chr & 0x3f));
 									}
 									else
-										value += (T)(m_hex->value & 0x7f);
+										value += (T)(chr & 0x7f);
 								}
 								else
-									value += (T)m_hex->value;
-								this->interval.end = m_hex->interval.end;
+									value += (T)chr;
 								continue;
 							}
 							if (m_escape->match(text, m_escape->interval.end, end, flags)) {
-- 
2.43.0


From 0f1b6075d10e299ccdefbc32f4130bc6112e13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 101/126] fix: scientific numeral: zero with a huge exponent is
 NaN

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 6426603..4992671 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2187,7 +2187,7 @@ namespace stdex
 					value += (double)decimal->value * pow(10.0, -(double)decimal->interval.size());
 				if (negative_sign && negative_sign->interval)
 					value = -value;
-				if (exponent && exponent->interval) {
+				if (exponent && exponent->interval && value != 0) {
 					double e = (double)exponent->value;
 					if (negative_exp_sign && negative_exp_sign->interval)
 						e = -e;
-- 
2.43.0


From a6cfde2955cae97356839e43c6aea8125e4d17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 102/126] fix: html: quoted entities are not recognised in
 conditions

---
 include/stdex/html.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 198ec2c..8775cd7 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1855,7 +1855,16 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									auto value = m_tag.attributes[3].name;
+									if (value.size() >= 2 &&
+										(source[value.start] == '"' || source[value.start] == '\'') &&
+										source[value.end - 1] == source[value.start])
+									{
+										// The value is quoted.
+										value.start++;
+										value.end--;
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From be6f073821b8d83535b2396fa9a69b23a4485f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 103/126] fix: charset_encoder: UTF-7 output is cut, state of a
 failed conversion stays

---
 include/stdex/unicode.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..7b06158 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -300,19 +300,26 @@ namespace stdex
 			}
 #else
 			dst.reserve(dst.size() + count_src);
+			clear(); // Start afresh: previous conversion might have failed halfway.
 			T_to buf[1024 / sizeof(T_to)];
 			size_t src_size = stdex::mul(sizeof(T_from), count_src);
-			for (;;) {
+			for (bool finish = false;;) {
 				T_to* output = &buf[0];
 				size_t output_size = sizeof(buf);
 				errno = 0;
-				iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				if (!finish)
+					iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				else
+					iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size); // UTF-7: Write what is pending.
+				int err = errno;
 				dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
-				if (!errno)
-					break;
-				if (errno == E2BIG)
+				if (err == E2BIG)
 					continue;
-				throw std::system_error(errno, std::system_category(), "iconv failed");
+				if (err)
+					throw std::system_error(err, std::system_category(), "iconv failed");
+				if (finish)
+					break;
+				finish = true;
 			}
 #endif
 		}
-- 
2.43.0


From 3c1b2f3e1d3f0087502c7c547a8a53bc2d3a8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 104/126] fix: scoped_executor: done lambda is a reference to a
 temporary

---
 include/stdex/scoped_executor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..9e4b0b0 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -18,7 +18,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done;
 
 	public:
 		///
-- 
2.43.0


From 40f705258a60fb04a7608768e53b7d29a3bd39c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:05 +0000
Subject: [PATCH 105/126] fix: html: ending tag of an unknown element ends
 elements of other unknown names

---
 include/stdex/html.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8775cd7..b13ea30 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1831,8 +1831,8 @@ namespace stdex
 							for (size_t j = m_element_stack.size(); j--; ) {
 								auto starting_tag = m_element_stack[j];
 								stdex_assert(starting_tag && starting_tag->type == stdex::parser::html_sequence_t::element_start);
-								if (starting_tag->code == e->code ||
-									(starting_tag->code == element_t::unknown && e->code == element_t::unknown && stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
+								if (starting_tag->code == e->code &&
+									(e->code != element_t::unknown || stdex::strnicmp(source + starting_tag->name.start, starting_tag->name.size(), source + e->name.start, e->name.size()) == 0))
 								{
 									e->start = starting_tag;
 									e->parent = starting_tag->parent;
-- 
2.43.0


From 0d366c9ff59e417801bcb91a978a5fc4fad37d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:14 +0000
Subject: [PATCH 106/126] fix: html: parser::merge adds no tokens

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b13ea30..697aef1 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2407,7 +2407,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin();; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 7c3dd8b96b239f4e9cd31862a60bdc90411e927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 107/126] fix: html: charset names are cut to bytes

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 697aef1..21f5971 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1816,7 +1816,7 @@ namespace stdex
 										std::string str;
 										str.reserve(content.charset.size());
 										for (size_t j = content.charset.start; j < content.charset.end; ++j)
-											str.push_back(static_cast<char>(source[j]));
+											str.push_back(static_cast<char>(source[j]) == source[j] ? static_cast<char>(source[j]) : '?');
 										m_charset = stdex::charset_from_name(str);
 									}
 								}
-- 
2.43.0


From b342b6dd82c9c721a477781d7006524562cb9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 108/126] fix: html: element names are cut to bytes

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 21f5971..1ac6038 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1479,7 +1479,7 @@ namespace stdex
 							break;
 						}
 
-						auto chr = static_cast<char>(stdex::tolower(name[i2++]));
+						auto chr = stdex::tolower(name[i2++]);
 						if (mapping[m].name[i1] > chr) {
 							r = 1;
 							break;
-- 
2.43.0


From 9de421188145ce9c96f8b915b4c7a41f666db859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:02 +0000
Subject: [PATCH 109/126] fix: url_unescape() read past the end of the text
 after %

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 1ac6038..6b7e017 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,10 +250,12 @@ namespace stdex
 					i++;
 
 					char chr;
+					if (i >= num_chars) { dst += '%'; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
-- 
2.43.0


From ea3de8ba12a5e004f92c1ed4ef5bf3d2b21d558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 110/126] fix: str2sgmlcat() checked the room for numeric
 entities as if the destination was empty, and wrote behind it

---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..3da5c1a 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -744,7 +744,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -772,7 +772,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From 70e1dbc9e5b423193a0d43da8fc907a42d4025b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 111/126] fix: css_unescape() read past the terminator after a
 backslash that ends the text

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 6b7e017..f3aba12 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -395,7 +395,7 @@ namespace stdex
 			for (size_t i = 0; i < num_chars && src[i];) {
 				if (src[i] != '\\')
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
+				else if (i + 1 < num_chars && src[i + 1]) {
 					i++;
 
 					switch (src[i]) {
-- 
2.43.0


From fb2957b5489661549e4ce8a42f6495ae803d1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 112/126] fix: strnicmp() of arrays did not return a result

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index bd4552e..55209ea 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From 576cd3243c0aaae103726130288294aef460ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:11 +0000
Subject: [PATCH 113/126] fix: strndup() did not terminate the copy, and
 allocated or read as much as the limit

---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 55209ea..7d100cd 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1870,8 +1870,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From ab8ea4f20a5f3b124c525076695023609c223cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 114/126] fix: strncoll() ignored the terminator and compared
 up to the limits

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 7d100cd..8de1cbb 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From c938d40607e8b1fc79616daf6c75097502208009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:37 +0000
Subject: [PATCH 115/126] fix: strncat() with a limit on the source left the
 result unterminated

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 8de1cbb..2edcedb 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From e9dbdd3deb927b608108daee46b42075a80d41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:47 +0000
Subject: [PATCH 116/126] fix: glyphrlen() of UTF-32 reported one code unit too
 many

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 2edcedb..a4ad2c6 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From f039f8d535e100ce4ef7f7fd23ca48345aedbd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:00 +0000
Subject: [PATCH 117/126] fix: islbreak() missed a line break that is the last
 code unit

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a4ad2c6..b19b1d5 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From 1e3e53269d296be0fc566b4f5f0933d159a94cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:05 +0000
Subject: [PATCH 118/126] fix: uuidtostr() to wchar_t wrote fields shifted by
 an extra argument

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..2f2f9ca 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From 8c612351f2cf6742a7d3b1c4fb9ae42d2cc0bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:10 +0000
Subject: [PATCH 119/126] fix: strtouuid() read past the limit and accepted
 UUIDs without the last hyphen

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 2f2f9ca..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From 4ad87649e948f3f5cf9801f2e485859151c47106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 120/126] fix: toupper() set all the other bits instead of
 clearing one

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b19b1d5..6eb60d0 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From 9084dd18a32a7861b3c1bb1a28a8adc70c4b05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:15 +0000
Subject: [PATCH 121/126] fix: stream::buffer hides the failure of a source
 that took all of the data

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 657196f..a31227e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1549,7 +1549,7 @@ namespace stdex
 				while (m_write_buffer.head != m_write_buffer.tail) {
 					size_t num_written = m_source->write(m_write_buffer.data + m_write_buffer.head, m_write_buffer.tail - m_write_buffer.head);
 					m_write_buffer.head += num_written;
-					if (m_write_buffer.head != m_write_buffer.tail && (!num_written || !m_source->ok())) {
+					if (!num_written || !m_source->ok()) _Unlikely_ {
 						m_state = m_source->ok() ? state_t::fail : m_source->state();
 						return;
 					}
-- 
2.43.0


From 3c3f9690d2b9d596b5b0af50f6aaae20de6e065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:30 +0000
Subject: [PATCH 122/126] fix: stream::cache drops what the source did not take
 at once

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a31227e..d7aaa98 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2242,7 +2242,7 @@ namespace stdex
 					m_state = state_t::fail;
 					return;
 				}
-				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
+				m_source->write_array(m_cache.data, sizeof(uint8_t), static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
 
-- 
2.43.0


From 06194092b5e4cfef6ff4b1fb61f3cece720433c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:46 +0000
Subject: [PATCH 123/126] fix: css: a backslash escapes any character of a
 string, URI or import

---
 include/stdex/parser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4992671..c6a34ef 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7566,9 +7566,9 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							text[this->interval.end + 1])
 						{
-							// Escaped quote
+							// Escaped character
 							this->interval.end = this->interval.end + 2;
 						}
 						else
@@ -7645,9 +7645,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
@@ -7759,9 +7759,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped character
 								this->interval.end = this->interval.end + 2;
 							}
 							else
-- 
2.43.0


From a383000a065ecc5f91924c009b6845b33d491596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 124/126] fix: MIME type: an unquoted charset took the
 semicolon and what follows

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index c6a34ef..2b95b82 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7891,6 +7891,7 @@ namespace stdex
 							this->charset.start = this->interval.end;
 							for (;;) {
 								if (this->interval.end >= end || !text[this->interval.end] ||
+									text[this->interval.end] == ';' ||
 									ctype.is(ctype.space, text[this->interval.end])) {
 									this->charset.end = this->interval.end;
 									break;
-- 
2.43.0


From 558a46ee27d51bc9b9a052afba311d62e0e3d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:06 +0000
Subject: [PATCH 125/126] fix: integer parsers: count digits, not characters

---
 include/stdex/parser.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2b95b82..df1a4ef 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1276,17 +1276,20 @@ namespace stdex
 		public:
 			basic_integer(_In_ const std::locale& locale = std::locale()) :
 				basic_parser<T>(locale),
-				value(0)
+				value(0),
+				digit_count(0)
 			{}
 
 			virtual void invalidate()
 			{
 				value = 0;
+				digit_count = 0;
 				basic_parser<T>::invalidate();
 			}
 
 		public:
 			size_t value; ///< Calculated value of the numeral
+			size_t digit_count; ///< Total number of digits in the numeral
 		};
 
 		///
@@ -1329,7 +1332,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = 0, this->digit_count = 0; this->interval.end < end && text[this->interval.end];) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1343,6 +1346,7 @@ namespace stdex
 					else if (m_digit_9->match(text, this->interval.end, end, flags)) { dig = 9; this->interval.end = m_digit_9->interval.end; }
 					else break;
 					this->value = this->value * 10 + dig;
+					this->digit_count++;
 				}
 				if (start < this->interval.end) {
 					this->interval.start = start;
@@ -1386,7 +1390,6 @@ namespace stdex
 				_In_ const std::shared_ptr<basic_set<T>>& separator,
 				_In_ const std::locale& locale = std::locale()) :
 				basic_integer<T>(locale),
-				digit_count(0),
 				has_separators(false),
 				m_digits(digits),
 				m_separator(separator)
@@ -1394,12 +1397,10 @@ namespace stdex
 
 			virtual void invalidate()
 			{
-				digit_count = 0;
 				has_separators = false;
 				basic_integer<T>::invalidate();
 			}
 
-			size_t digit_count; ///< Total number of digits in integer
 			bool has_separators; ///< Did integer have any separators?
 
 		protected:
@@ -1413,21 +1414,21 @@ namespace stdex
 				if (m_digits->match(text, start, end, flags)) {
 					// Leading part match.
 					this->value = m_digits->value;
-					digit_count = m_digits->interval.size();
+					this->digit_count = m_digits->digit_count;
 					has_separators = false;
 					this->interval.start = start;
 					this->interval.end = m_digits->interval.end;
-					if (m_digits->interval.size() <= 3) {
+					if (m_digits->digit_count <= 3) {
 						// Maybe separated with thousand separators?
 						size_t hit_offset = SIZE_MAX;
 						while (m_separator->match(text, this->interval.end, end, flags) &&
 							(hit_offset == SIZE_MAX || hit_offset == m_separator->hit_offset) && // All separators must be the same, no mixing.
 							m_digits->match(text, m_separator->interval.end, end, flags) &&
-							m_digits->interval.size() == 3)
+							m_digits->digit_count == 3)
 						{
 							// Thousand separator and three-digit integer followed.
 							this->value = this->value * 1000 + m_digits->value;
-							digit_count += 3;
+							this->digit_count += 3;
 							has_separators = true;
 							this->interval.end = m_digits->interval.end;
 							hit_offset = m_separator->hit_offset;
@@ -1506,7 +1507,7 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end];) {
+				for (this->interval.end = start, this->value = 0, this->digit_count = 0; this->interval.end < end && text[this->interval.end];) {
 					size_t dig;
 					if (m_digit_0->match(text, this->interval.end, end, flags)) { dig = 0; this->interval.end = m_digit_0->interval.end; }
 					else if (m_digit_1->match(text, this->interval.end, end, flags)) { dig = 1; this->interval.end = m_digit_1->interval.end; }
@@ -1526,6 +1527,7 @@ namespace stdex
 					else if (m_digit_15->match(text, this->interval.end, end, flags)) { dig = 15; this->interval.end = m_digit_15->interval.end; }
 					else break;
 					this->value = this->value * 16 + dig;
+					this->digit_count++;
 				}
 				if (start < this->interval.end) {
 					this->interval.start = start;
@@ -1605,7 +1607,7 @@ namespace stdex
 					dig[5] = { SIZE_MAX, SIZE_MAX, SIZE_MAX, SIZE_MAX, SIZE_MAX },
 					end2;
 
-				for (this->interval.end = start, this->value = 0; this->interval.end < end && text[this->interval.end]; dig[3] = dig[2], dig[2] = dig[1], dig[1] = dig[0], this->interval.end = end2) {
+				for (this->interval.end = start, this->value = 0, this->digit_count = 0; this->interval.end < end && text[this->interval.end]; this->digit_count++, dig[3] = dig[2], dig[2] = dig[1], dig[1] = dig[0], this->interval.end = end2) {
 					if (m_digit_1 && m_digit_1->match(text, this->interval.end, end, flags)) { dig[0] = 1; end2 = m_digit_1->interval.end; }
 					else if (m_digit_5 && m_digit_5->match(text, this->interval.end, end, flags)) { dig[0] = 5; end2 = m_digit_5->interval.end; }
 					else if (m_digit_10 && m_digit_10->match(text, this->interval.end, end, flags)) { dig[0] = 10; end2 = m_digit_10->interval.end; }
@@ -2184,7 +2186,7 @@ namespace stdex
 
 				value = (double)integer->value;
 				if (decimal->interval)
-					value += (double)decimal->value * pow(10.0, -(double)decimal->interval.size());
+					value += (double)decimal->value * pow(10.0, -(double)decimal->digit_count);
 				if (negative_sign && negative_sign->interval)
 					value = -value;
 				if (exponent && exponent->interval && value != 0) {
-- 
2.43.0


From bd44951b766b82f55ea0d6715a389112d1e674bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:15 +0000
Subject: [PATCH 126/126] fix: integer10ts, scientific numeral, weighted value:
 a failed match keeps values of the one before

---
 include/stdex/parser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index df1a4ef..905443f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1437,8 +1437,7 @@ namespace stdex
 
 					return true;
 				}
-				this->value = 0;
-				this->interval.invalidate();
+				invalidate();
 				return false;
 			}
 
@@ -2158,6 +2157,7 @@ namespace stdex
 					if (positive_exp_sign) positive_exp_sign->invalidate();
 					if (negative_exp_sign) negative_exp_sign->invalidate();
 					if (exponent) exponent->invalidate();
+					value = std::numeric_limits<double>::quiet_NaN();
 					this->interval.invalidate();
 					return false;
 				}
@@ -6599,6 +6599,7 @@ namespace stdex
 				else {
 					asterisk.invalidate();
 					value.invalidate();
+					factor.invalidate();
 					this->interval.invalidate();
 					return false;
 				}
-- 
2.43.0

