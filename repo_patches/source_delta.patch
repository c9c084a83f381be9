From ea2c12a232d8e2deeb3395d0d32ac375f6d520ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 001/101] fix: rol() shifted by the full width when rotating by
 zero bits

---
 include/stdex/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/math.hpp b/include/stdex/math.hpp
index d513322..ff9449b 100644
--- a/include/stdex/math.hpp
+++ b/include/stdex/math.hpp
@@ -80,7 +80,7 @@ namespace stdex
 #ifdef _WIN32
 		return _rotl(value, bits);
 #else
-		return (value << bits) | (value >> (32 - bits));
+		return (value << (bits & 31)) | (value >> (-bits & 31));
 #endif
 	}
 
-- 
2.43.0


From f7679bae9ca10ad44ff7bea9c0c31310db3d9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 002/101] fix: vector_queue::push_front() wrapped to the wrong
 slot unless the capacity was a power of two

---
 include/stdex/vector_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..fb2b344 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,7 +316,7 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = v;
@@ -332,7 +332,7 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = std::move(v);
-- 
2.43.0


From bb01ad5709a583a2978c210c295bbfae2a065e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 003/101] fix: vector_queue move assignment leaked the previous
 elements

---
 include/stdex/vector_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index fb2b344..d6218e4 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -137,6 +137,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From 9b6ec9271cc8d19e83e8b5d4ed3ae2f3c22a0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 004/101] fix: base64_reader::read() did not count the last
 bytes before the padding

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..836d48d 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From 578d9f86d166a2cfee924a978098a711a9c0b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 005/101] fix: base64_writer::write() returned the number of
 bytes left instead of taken when the target failed

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 836d48d..ef3a313 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From 1d8d1159e1779aeb4029783a2b93ef5a1a23c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 006/101] fix: cache::size() reported positions past the end
 that were only read

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..43266b5 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2050,7 +2050,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status == cache_t::cache_t::status_t::dirty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From 97a077a51e2f3e51c1533292a7a6b27ceb852a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 007/101] fix: cache left bytes between the cached data and the
 write position undefined

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 43266b5..67e7564 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1945,6 +1945,8 @@ namespace stdex
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (to_write <= remaining_cache) {
+								if (m_cache.region.end < m_offset)
+									memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
 								m_offset += to_write;
 								m_cache.status = cache_t::cache_t::status_t::dirty;
@@ -1952,6 +1954,8 @@ namespace stdex
 								m_state = state_t::ok;
 								return length;
 							}
+							if (m_cache.region.end < m_offset)
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
 							memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, remaining_cache);
 							reinterpret_cast<const uint8_t*&>(data) += remaining_cache;
 							to_write -= remaining_cache;
-- 
2.43.0


From b6184a0caee30b27344be0647d33d5d4291198ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 008/101] fix: cache kept a stale block after a write that
 bypassed it

---
 include/stdex/stream.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 67e7564..03bcff8 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1963,7 +1963,7 @@ namespace stdex
 							m_cache.status = cache_t::cache_t::status_t::dirty;
 							m_cache.region.end = end_max;
 						}
-						flush_cache();
+						invalidate_cache();
 						if (!ok()) _Unlikely_
 							return length - to_write;
 					}
@@ -1972,8 +1972,10 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
-							if (!ok()) _Unlikely_
+							if (!m_source->ok()) _Unlikely_ {
+								m_state = m_source->state();
 								return length - to_write;
+							}
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
 							m_offset += num_written;
 							m_state = m_source->state();
-- 
2.43.0


From 38dbc4ec307d6821a5ab073e9d446b11cf10fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 009/101] fix: cache extended the file on a zero-length write
 past its end

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 03bcff8..07df32c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1939,6 +1939,10 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				for (size_t to_write = length;;) {
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
-- 
2.43.0


From 4411269b50fa87c1d9e42e086861be589bd44367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 010/101] fix: cache::flush() did not report a failed flush of
 the underlying file

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 07df32c..c3ba2e2 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2013,6 +2013,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
-- 
2.43.0


From 76d086833531ea3f5ab99ca2f2c14eceb5580e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 011/101] fix: buffer::close() closed the target without
 writing out the buffered data

---
 include/stdex/stream.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index c3ba2e2..c75b073 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1498,6 +1498,16 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				flush_write();
+				state_t state = m_state;
+				m_write_buffer.head = m_write_buffer.tail = 0;
+				converter::close();
+				if (state != state_t::ok) _Unlikely_
+					m_state = state; // Data loss occurred
+			}
+
 			virtual void flush()
 			{
 				flush_write();
-- 
2.43.0


From 047017d41755a412c6146cf8d9318d15ea3ddaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 012/101] fix: fifo released its nodes with the wrong operator
 delete

---
 include/stdex/stream.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index c75b073..0a67f5a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4117,7 +4117,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete [] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4146,7 +4146,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete [] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4155,15 +4155,15 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
-					else
-						m_head = m_tail = n.release();
+						m_tail = m_tail->next = n;
+						else
+						m_head = m_tail = n;
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4179,7 +4179,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete [] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From 1948aa191c99d03c8ef0c95c4184d8ecd79d13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 013/101] fix: diag_file::lock(), unlock() and truncate()
 accessed the first of no files

---
 include/stdex/stream.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 0a67f5a..f1eafdc 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4313,8 +4313,10 @@ namespace stdex
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->lock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4326,8 +4328,10 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->unlock(offset, length);
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
@@ -4351,8 +4355,10 @@ namespace stdex
 
 			virtual void truncate()
 			{
-				if (m_files.empty())
+				if (m_files.empty()) {
 					m_state = state_t::fail;
+					return;
+				}
 				m_files[0]->truncate();
 				m_state = m_files[0]->state();
 				for (size_t i = 1, n = m_files.size(); i < n; ++i) {
-- 
2.43.0


From 0966865021e1b9f177fd824314d098a737e1b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 014/101] fix: skipping a few bytes past the end of a stream
 threw an exception

---
 include/stdex/stream.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f1eafdc..53e9833 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -147,14 +147,11 @@ namespace stdex
 			///
 			virtual void skip(_In_ fsize_t amount)
 			{
-				if (amount == 1)
-					read_byte();
-				else if (amount < iterate_count) {
-					for (size_t i = 0; i < static_cast<size_t>(amount); i++) {
-						read_byte();
-						if (!ok()) _Unlikely_
-							break;
-					}
+				if (!amount)
+					return;
+				if (amount < iterate_count) {
+					uint8_t dummy[iterate_count];
+					read_array(dummy, sizeof(uint8_t), static_cast<size_t>(amount));
 				}
 				else {
 					size_t block = static_cast<size_t>(std::min<fsize_t>(amount, default_block_size));
-- 
2.43.0


From 197009ca92abd3250da7e6bdb188a04750949e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 015/101] fix: memory_file left the target unchanged when
 reading a truncated string

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 53e9833..76c1d99 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3654,6 +3654,7 @@ namespace stdex
 					data.clear();
 					return *this;
 				}
+				data.clear();
 				size_t end_offset = m_offset + sizeof(uint32_t);
 				if (end_offset <= m_size) {
 					uint32_t num_chars = LE2HE(*reinterpret_cast<uint32_t*>(&m_data[m_offset]));
@@ -3668,8 +3669,7 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, start + (m_size - m_offset) / sizeof(T));
 				}
 				m_offset = m_size;
 				m_state = state_t::eof;
-- 
2.43.0


From d94ad1bd2430588514f91f6797b08c40854f93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 016/101] fix: memory_file mishandled positions past the end of
 the file

---
 include/stdex/stream.hpp | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 76c1d99..a0e6666 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3478,6 +3478,18 @@ namespace stdex
 				m_state = state_t::ok;
 			}
 
+		protected:
+			///
+			/// Fills the gap between the end of the file and the file pointer with zeros
+			///
+			void fill_gap() noexcept
+			{
+				if (m_offset > m_size)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+
+		public:
+
 			///
 			/// Loads content from a file-system file
 			///
@@ -3573,7 +3585,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
@@ -3683,12 +3695,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!length) _Unlikely_ {
+					m_state = state_t::ok;
+					return 0;
+				}
 				size_t end_offset = m_offset + length;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				fill_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3705,12 +3722,17 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
+				if (!amount) _Unlikely_ {
+					m_state = state_t::ok;
+					return;
+				}
 				size_t end_offset = m_offset + amount;
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
 						return;
 				}
+				fill_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3746,6 +3768,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3789,6 +3812,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3834,6 +3858,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3895,9 +3920,12 @@ namespace stdex
 						}
 					};
 				}
-				m_offset = dst_offset;
-				if (m_offset > m_size)
-					m_size = m_offset;
+				if (num_copied) {
+					fill_gap();
+					m_offset = dst_offset;
+					if (m_offset > m_size)
+						m_size = m_offset;
+				}
 				return num_copied;
 			}
 
@@ -3946,8 +3974,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				fill_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
@@ -3996,7 +4027,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_size);
 				(*reinterpret_cast<T*>(&m_data[offset])) = HE2LE(data);
 			}
 
@@ -4027,7 +4058,7 @@ namespace stdex
 			template <class T>
 			void get(_In_ fpos_t offset, _Out_ T & data)
 			{
-				stdex_assert(offset + sizeof(T) < m_size);
+				stdex_assert(offset + sizeof(T) <= m_size);
 				data = LE2HE(*(T*)(&m_data[offset]));
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
-- 
2.43.0


From d773020294c8b24e2f29c2865ab6e9eeafb3ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 017/101] fix: file_window positioned the source relative to
 the source instead of the window

---
 include/stdex/stream.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a0e6666..34b8398 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1747,27 +1747,41 @@ namespace stdex
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
 			{
-				m_offset = m_source.seek(offset, how);
+				switch (how) {
+				case seek_t::beg: offset += static_cast<foff_t>(m_region.start); break;
+				case seek_t::cur: offset += static_cast<foff_t>(m_offset); break;
+				case seek_t::end: offset += static_cast<foff_t>(m_region.end); break;
+				default: throw std::invalid_argument("unknown seek origin");
+				}
+				if (offset < static_cast<foff_t>(m_region.start)) _Unlikely_ {
+					m_state = state_t::fail;
+					return fpos_max;
+				}
+				fpos_t result = m_source.seekbeg(static_cast<fpos_t>(offset));
 				m_state = m_source.state();
-				return ok() ? m_offset - m_region.start : fpos_max;
+				if (!ok()) _Unlikely_
+					return fpos_max;
+				m_offset = result;
+				return m_offset - m_region.start;
 			}
 
 			virtual void skip(_In_ fsize_t amount)
 			{
 				m_source.skip(amount);
 				m_state = m_source.state();
+				m_offset = m_source.tell();
 			}
 
 			virtual fpos_t tell() const
 			{
 				fpos_t offset = m_source.tell();
-				return m_region.contains(offset) ? offset - m_region.start : fpos_max;
+				return m_region.start <= offset && offset <= m_region.end ? offset - m_region.start : fpos_max;
 			}
 
 			virtual void lock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.lock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
@@ -1776,8 +1790,8 @@ namespace stdex
 
 			virtual void unlock(_In_ fpos_t offset, _In_ fsize_t length)
 			{
-				if (m_region.contains(offset)) {
-					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.end - offset));
+				if (offset < m_region.size()) {
+					m_source.unlock(m_region.start + offset, std::min<fsize_t>(length, m_region.size() - offset));
 					m_state = m_source.state();
 				}
 				else
-- 
2.43.0


From 8741f5d2a46eb64e380afc747420076eaeb5c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 018/101] fix: read_array() counted a partially read element

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 34b8398..4402892 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -378,7 +378,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return count - (to_read + size - 1) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From da91c82c76a008e47d4e9dc3233a4f13f30f1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 019/101] fix: stream operators >> for vector and set returned
 nothing

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4402892..f87e5b6 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -704,6 +704,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -733,6 +734,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From caa8cd213d2c6d4f6436e59cb590c539e06bf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 020/101] fix: write_stream() hid a failed or short write

---
 include/stdex/stream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f87e5b6..54344b2 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -564,6 +564,11 @@ namespace stdex
 					size_t num_written = write(data.get(), num_read);
 					num_copied += num_written;
 					to_write -= num_written;
+					if (num_written < num_read) _Unlikely_ {
+						if (ok())
+							m_state = state_t::fail;
+						break;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From d0b87d6e116b833f2db884f1ae9123049d7da716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 021/101] fix: basic_file::read_remainder() tried to read a
 huge block when positioned past the end

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 54344b2..11c863e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -820,7 +820,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				fpos_t offset = tell();
+				fsize_t end = size();
+				size_t length = offset < end ? static_cast<size_t>(std::min<fsize_t>(max_length, end - offset)) : 0;
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From 2d7d236391702526a4b9af9367dab1e37412f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 022/101] fix: ring::back() offered space after quit() was
 signalled

---
 include/stdex/ring.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/stdex/ring.hpp b/include/stdex/ring.hpp
index d596437..8475afe 100644
--- a/include/stdex/ring.hpp
+++ b/include/stdex/ring.hpp
@@ -43,11 +43,9 @@ namespace stdex
 		std::tuple<T*, size_t> back()
 		{
 			std::unique_lock<std::mutex> lk(m_mutex);
-			if (!space()) {
-				m_head_moved.wait(lk, [&]{return m_quit || space();});
-				if (m_quit) _Unlikely_
-					return { nullptr, 0 };
-			}
+			m_head_moved.wait(lk, [&]{return m_quit || space();});
+			if (m_quit) _Unlikely_
+				return { nullptr, 0 };
 			size_t tail = wrap(m_head + m_size);
 			return { &m_data[tail], m_head <= tail ? N_cap - tail : m_head - tail };
 		}
-- 
2.43.0


From c8f798595db01d507aa1a0e2f94cbbc6f6a65710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 023/101] fix: async_reader::close() closed the source while
 its worker was still reading it

---
 include/stdex/stream.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 11c863e..779dc79 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1267,7 +1267,8 @@ namespace stdex
 			virtual ~async_reader()
 			{
 				m_ring.quit();
-				m_worker.join();
+				if (m_worker.joinable())
+					m_worker.join();
 			}
 
 #pragma warning(suppress: 6101) // See [1] below
@@ -1295,6 +1296,14 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				m_ring.quit();
+				if (m_worker.joinable())
+					m_worker.join();
+				converter::close();
+			}
+
 		protected:
 			void process()
 			{
-- 
2.43.0


From ec0f134bfb5b5d5387e498e7969a2aaa16b413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 024/101] fix: async_writer lost failures of its target and
 closed it with data pending

---
 include/stdex/stream.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 779dc79..1b40da3 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1337,6 +1337,7 @@ namespace stdex
 		public:
 			async_writer(_Inout_ basic& source) :
 				converter(source),
+				m_failed(false),
 				m_worker([](_Inout_ async_writer& w) { w.process(); }, std::ref(*this))
 			{}
 
@@ -1370,10 +1371,21 @@ namespace stdex
 				}
 			}
 
+			virtual void close()
+			{
+				m_ring.sync();
+				converter::close();
+				if (m_failed) _Unlikely_
+					m_state = state_t::fail;
+			}
+
 			virtual void flush()
 			{
 				m_ring.sync();
-				converter::flush();
+				if (m_failed) _Unlikely_
+					m_state = state_t::fail;
+				else
+					converter::flush();
 			}
 
 		protected:
@@ -1385,16 +1397,18 @@ namespace stdex
 					if (!ptr)
 						break;
 					num_read = m_source->write(ptr, num_read);
-					m_ring.pop(num_read);
 					if (!m_source->ok()) {
+						m_failed = true;
 						m_ring.quit();
 						break;
 					}
+					m_ring.pop(num_read);
 				}
 			}
 
 		protected:
 			ring<uint8_t, N_cap> m_ring;
+			bool m_failed;
 			std::thread m_worker;
 		};
 
-- 
2.43.0


From ba235c14bb0476670b9ec24c28b1bdfe9a876d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 025/101] fix: writing to a system object or socket that takes
 nothing never ended

---
 include/stdex/stream.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 1b40da3..68180fb 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2369,6 +2369,10 @@ namespace stdex
 						m_state = state_t::ok;
 						return length;
 					}
+					if (!num_written) _Unlikely_ {
+						m_state = state_t::fail;
+						return length - to_write;
+					}
 					reinterpret_cast<const uint8_t*&>(data) += num_written;
 #endif
 				}
@@ -2531,6 +2535,10 @@ namespace stdex
 						m_state = state_t::ok;
 						return length;
 					}
+					if (!num_written) _Unlikely_ {
+						m_state = state_t::fail;
+						return length - to_write;
+					}
 					reinterpret_cast<const uint8_t*&>(data) += num_written;
 				}
 			}
-- 
2.43.0


From 98c1c2f2f3be0f4aaead2a35d6c8a7d7a69a4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 026/101] fix: moving a socket stream did not move its state

---
 include/stdex/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 68180fb..7390bfa 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2437,7 +2437,9 @@ namespace stdex
 			socket& operator =(_In_ const socket& other);
 
 		public:
-			socket(_Inout_ socket&& other) noexcept : m_h(other.m_h)
+			socket(_Inout_ socket&& other) noexcept :
+				basic(other.m_state),
+				m_h(other.m_h)
 			{
 				other.m_h = stdex::invalid_socket;
 			}
@@ -2447,6 +2449,7 @@ namespace stdex
 				if (this != std::addressof(other)) {
 					if (m_h != stdex::invalid_socket)
 						closesocket(m_h);
+					m_state = other.m_state;
 					m_h = other.m_h;
 					other.m_h = stdex::invalid_socket;
 				}
-- 
2.43.0


From b97f0c5f745c99c1cd4d4584a88b2291a9785509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 027/101] fix: file::lock() never reported failure

---
 include/stdex/stream.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 7390bfa..3481988 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2956,7 +2956,6 @@ namespace stdex
 						throw std::invalid_argument("file section length too big");
 					m_state = lseek64(m_h, static_cast<off64_t>(offset), SEEK_SET) >= 0 && lockf64(m_h, F_LOCK, static_cast<off64_t>(length)) >= 0 ? state_t::ok : state_t::fail;
 					lseek64(m_h, orig, SEEK_SET);
-					m_state = state_t::ok;
 					return;
 				}
 #endif
-- 
2.43.0


From 0b95decc73a163d57b1e7044556af1aedc84ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 028/101] fix: file::set_atime() and set_mtime() took clock
 ticks for seconds

---
 include/stdex/stream.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 3481988..19a3e45 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3049,6 +3049,16 @@ namespace stdex
 				ft.dwHighDateTime = static_cast<DWORD>((t >> 32) & 0xffffffff);
 				ft.dwLowDateTime = static_cast<DWORD>(t & 0xffffffff);
 			}
+#else
+			static struct timespec tp2ts(_In_ time_point tp)
+			{
+				auto t = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch());
+				auto s = std::chrono::floor<std::chrono::seconds>(t);
+				struct timespec ts;
+				ts.tv_sec = static_cast<time_t>(s.count());
+				ts.tv_nsec = static_cast<long>((t - s).count());
+				return ts;
+			}
 #endif
 
 			virtual time_point ctime() const
@@ -3115,7 +3125,7 @@ namespace stdex
 				throw std::system_error(GetLastError(), std::system_category(), "SetFileTime failed");
 #else
 				struct timespec ts[2] = {
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 					{ 0, UTIME_OMIT },
 				};
 				if (futimens(m_h, ts) >= 0)
@@ -3135,7 +3145,7 @@ namespace stdex
 #else
 				struct timespec ts[2] = {
 					{ 0, UTIME_OMIT },
-					{ date.time_since_epoch().count(), 0 },
+					tp2ts(date),
 				};
 				if (futimens(m_h, ts) >= 0)
 					return;
-- 
2.43.0


From bf3a0a8455961f769a6b586b939f8f33c99325e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 029/101] fix: basic_sys_object closed its handle twice when
 closing or duplicating failed

---
 include/stdex/system.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdex/system.hpp b/include/stdex/system.hpp
index 737a8fc..057fea6 100644
--- a/include/stdex/system.hpp
+++ b/include/stdex/system.hpp
@@ -148,9 +148,10 @@ namespace stdex
 		basic_sys_object& operator =(_In_ const basic_sys_object<T, TR>& other)
 		{
 			if (this != std::addressof(other)) {
-				if (m_h != TR::invalid_handle)
-					TR::close(m_h);
-				m_h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				T h = other.m_h != TR::invalid_handle ? TR::duplicate(other.m_h) : TR::invalid_handle;
+				std::swap(m_h, h);
+				if (h != TR::invalid_handle)
+					TR::close(h);
 			}
 			return *this;
 		}
@@ -183,8 +184,9 @@ namespace stdex
 		virtual void close()
 		{
 			if (m_h != TR::invalid_handle) {
-				TR::close(m_h);
+				T h = m_h;
 				m_h = TR::invalid_handle;
+				TR::close(h);
 			}
 		}
 
-- 
2.43.0


From a137cd7f83fbacb4f13ec43ca61409c80aaeff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 030/101] fix: make string comparison order a string after its
 prefixes for negative code units too

---
 include/stdex/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..b0a731b 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -888,7 +888,7 @@ namespace stdex
 		stdex_assert(str1);
 		stdex_assert(str2);
 		size_t i; T1 a; T2 b;
-		for (i = 0; (a = str1[i]) | (b = str2[i]); ++i) {
+		for (i = 0; (a = str1[i], b = str2[i], a && b); ++i) {
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -912,7 +912,7 @@ namespace stdex
 		stdex_assert(str1 || !count);
 		stdex_assert(str2 || !count);
 		size_t i; T1 a; T2 b;
-		for (i = 0; i < count && ((a = str1[i]) | (b = str2[i])); ++i) {
+		for (i = 0; i < count && (a = str1[i], b = str2[i], a && b); ++i) {
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -942,7 +942,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = str1[i];
 			auto b = str2[i];
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
-- 
2.43.0


From 158bed72ad87e446033b0d8543ef7897b1e78b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 031/101] fix: make case-insensitive string comparison order a
 string after its prefixes for negative code units too

---
 include/stdex/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b0a731b..f8b2bc5 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1141,7 +1141,7 @@ namespace stdex
 		for (i = 0; ; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) return a ? +1 : b ? -1 : 0;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1167,7 +1167,7 @@ namespace stdex
 		for (i = 0;; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) return a ? +1 : b ? -1 : 0;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1191,7 +1191,7 @@ namespace stdex
 		for (i = 0; i < count; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1221,7 +1221,7 @@ namespace stdex
 		for (i = 0; i < count; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1251,7 +1251,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = tolower(str1[i]);
 			auto b = tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
@@ -1285,7 +1285,7 @@ namespace stdex
 		for (i = 0; i < count1 && i < count2; ++i) {
 			auto a = ctype1.tolower(str1[i]);
 			auto b = ctype2.tolower(str2[i]);
-			if (!a && !b) return 0;
+			if (!a || !b) break;
 			if (a > b) return +1;
 			if (a < b) return -1;
 		}
-- 
2.43.0


From 16462ff3fce5223d2edf15df0fd2d75ecb173333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 032/101] fix: return the result of strnicmp for arrays

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index f8b2bc5..b82d208 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From 85f758d8e8e74fffe081aaf794748e193da7bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 033/101] fix: terminate result of strncat when the source
 limit is reached

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index b82d208..0067ca5 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From 6fce6d84d5966f2b662a4333107946610edb2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 034/101] fix: clear the case bit in toupper

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 0067ca5..aa9dca9 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From f6cbf5e110747fa3755fa553265c06549b3070f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 035/101] fix: recognize a single line break at the end of text

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index aa9dca9..7920a88 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From 1c4f4f1f79f0cce666771902e94cd217d25ed08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 036/101] fix: count only the last glyph in glyphrlen of UTF-32

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 7920a88..8bfbe86 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From e3c79dd6889b08e8e28b10f58eba2608dcc9bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 037/101] fix: terminate strndup duplicates

---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 8bfbe86..1bdadf2 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1872,8 +1872,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From 183e42e1ac35eaf9b914e954a3ed9f56cfdc1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 038/101] fix: saturate positive overflow of signed strtoint

---
 include/stdex/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 1bdadf2..a8e5114 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & 0x80) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & 0x8000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & 0x80000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & 0x8000000000000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
-- 
2.43.0


From 73dc44356d4f632eeb8ec1b79abcdbbb1c3ece59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 039/101] fix: saturate negative input of strtouint to zero

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a8e5114..7999b53 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? (T_bin)0 : value;
 	}
 
 	///
-- 
2.43.0


From 7034fc1f6e3c5d168334ddbe291c30a9a1495c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 040/101] fix: do not take malformed numeric SGML entities for
 characters

---
 include/stdex/sgml.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 0618c26..50763af 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -49,9 +49,17 @@ namespace stdex
 			return nullptr;
 		}
 
-		buf[0] = entity[1] == 'x' || entity[1] == 'X' ?
-			static_cast<utf32_t>(strtou32(&entity[2], count - 2, nullptr, 16)) :
-			static_cast<utf32_t>(strtou32(&entity[1], count - 1, nullptr, 10));
+		const bool hex = entity[1] == 'x' || entity[1] == 'X';
+		const size_t start = hex ? 2 : 1;
+		if (start >= count)
+			return nullptr;
+		for (size_t i = start; i < count; ++i)
+			if (!isdigit(entity[i]) && !(hex && (('A' <= entity[i] && entity[i] <= 'F') || ('a' <= entity[i] && entity[i] <= 'f'))))
+				return nullptr;
+		const auto chr = strtou32(&entity[start], count - start, nullptr, hex ? 16 : 10);
+		if (!chr || chr > 0x10ffff)
+			return nullptr;
+		buf[0] = static_cast<utf32_t>(chr);
 		buf[1] = 0;
 		return buf;
 	}
-- 
2.43.0


From f4db36b1acf5c9ed133350ab58c2e3b559e24d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 041/101] fix: check the remaining space when encoding to
 numeric SGML entities

---
 include/stdex/sgml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 50763af..82f7fb0 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -752,7 +752,7 @@ namespace stdex
 						char tmp[3 + 8 + 1 + 1];
 						int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(src[i++]));
 						stdex_assert(m >= 0);
-						if (static_cast<size_t>(m) >= count_dst)
+						if (j + static_cast<size_t>(m) >= count_dst)
 							throw buffer_overrun;
 						memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 						j += static_cast<size_t>(m);
@@ -780,7 +780,7 @@ namespace stdex
 							char tmp[3 + 8 + 1 + 1];
 							int m = snprintf(tmp, _countof(tmp), "&#x%x;", static_cast<unsigned int>(wstr_to_utf32(src, i, end)));
 							stdex_assert(m >= 0);
-							if (static_cast<size_t>(m) >= count_dst)
+							if (j + static_cast<size_t>(m) >= count_dst)
 								throw buffer_overrun;
 							memcpy(dst + j, tmp, static_cast<size_t>(m) * sizeof(char));
 							j += static_cast<size_t>(m);
-- 
2.43.0


From 3d68465f0ca43bc0bc96622ead934b061910b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 042/101] fix: enforce 7-bit text in sgmlerr when asked to

---
 include/stdex/sgml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/sgml.hpp b/include/stdex/sgml.hpp
index 82f7fb0..87d93fc 100644
--- a/include/stdex/sgml.hpp
+++ b/include/stdex/sgml.hpp
@@ -139,7 +139,7 @@ namespace stdex
 		stdex_assert(src || !count_src);
 
 		const bool
-			do_ascii = (what & sgml_full) == 0;
+			do_ascii = (what & sgml_full) != 0;
 
 		for (size_t i = 0; i < count_src && src[i];) {
 			if (src[i] == '&') {
-- 
2.43.0


From 347ecbdc2bbefbd514b5bef6e74f843600fdaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 043/101] fix: do not encode characters to SGML entities that
 decode to other characters

---
 include/stdex/sgml_unicode.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdex/sgml_unicode.hpp b/include/stdex/sgml_unicode.hpp
index 03d214c..3958b7a 100644
--- a/include/stdex/sgml_unicode.hpp
+++ b/include/stdex/sgml_unicode.hpp
@@ -2344,7 +2344,6 @@ namespace stdex
 		0x508,
 		0x50b,
 		0x509,
-		0x1fc,
 		0x290,
 		0x27f,
 		0x271,
@@ -3089,7 +3088,6 @@ namespace stdex
 		0x2a5,
 		0x3fd,
 		0x3e5,
-		0x3e4,
 		0x517,
 		0x318,
 		0x31b,
-- 
2.43.0


From c7817e05a84756a3c71f983a5c4d2d839b5a5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 044/101] fix: html: url_unescape read past the limit when the
 text ends inside of a %XX escape

---
 include/stdex/html.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 5657416..8d6aa54 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -250,10 +250,12 @@ namespace stdex
 					i++;
 
 					char chr;
+					if (i >= num_chars) { dst += '%'; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr = static_cast<char>((src[i++] - '0') << 4);
 					else if ('A' <= src[i] && src[i] <= 'F') chr = static_cast<char>((src[i++] - 'A' + 10) << 4);
 					else if ('a' <= src[i] && src[i] <= 'f') chr = static_cast<char>((src[i++] - 'a' + 10) << 4);
 					else { dst += '%'; continue; }
+					if (i >= num_chars) { dst += '%'; dst += src[i - 1]; continue; }
 					if ('0' <= src[i] && src[i] <= '9') chr |= static_cast<char>((src[i++] - '0'));
 					else if ('A' <= src[i] && src[i] <= 'F') chr |= static_cast<char>((src[i++] - 'A' + 10));
 					else if ('a' <= src[i] && src[i] <= 'f') chr |= static_cast<char>((src[i++] - 'a' + 10));
-- 
2.43.0


From 590db85a7abc419f9f232ffe1b9b6ee9ef8c6504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 045/101] fix: html: css_unescape endless loop and overread on
 a trailing backslash

---
 include/stdex/html.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 8d6aa54..b58069d 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -395,9 +395,7 @@ namespace stdex
 			for (size_t i = 0; i < num_chars && src[i];) {
 				if (src[i] != '\\')
 					dst += src[i++];
-				else if (i + 1 < num_chars) {
-					i++;
-
+				else if (++i < num_chars && src[i]) {
 					switch (src[i]) {
 						// Classic escapes
 					case 'n': dst += '\n'; i++; break;
-- 
2.43.0


From 858b8dbfdabd616e632eaa9708c414b79c2eb2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 046/101] fix: uuid: wide uuidtostr printed garbage

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..2f2f9ca 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From d95d2f9f4a09c2ddb5f941412f58bd3397dd6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 047/101] fix: uuid: strtouuid did not require the last dash
 and read past the end

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 2f2f9ca..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From f1f148a7fc66b5be67ac7e4693dcf741af361b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 048/101] fix: uuid: strtouuid accepted empty parts

---
 include/stdex/uuid.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 1f4d384..a719fdb 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -100,7 +100,7 @@ namespace stdex
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT32_MAX) return false;
+		if (!j || n > UINT32_MAX) return false;
 #ifdef _WIN32
 		id.Data1 = static_cast<unsigned long>(n);
 #else
@@ -112,7 +112,7 @@ namespace stdex
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data2 = static_cast<unsigned short>(n);
 #else
@@ -124,7 +124,7 @@ namespace stdex
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data3 = static_cast<unsigned short>(n);
 #else
@@ -136,7 +136,7 @@ namespace stdex
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > UINT16_MAX) return false;
+		if (!j || n > UINT16_MAX) return false;
 #ifdef _WIN32
 		id.Data4[0] = static_cast<unsigned char>((n >> 8) & 0xff);
 		id.Data4[1] = static_cast<unsigned char>((n) & 0xff);
@@ -150,7 +150,7 @@ namespace stdex
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-		if (n > 0xffffffffffff) return false;
+		if (!j || n > 0xffffffffffff) return false;
 #ifdef _WIN32
 		id.Data4[2] = static_cast<unsigned char>((n >> 40) & 0xff);
 		id.Data4[3] = static_cast<unsigned char>((n >> 32) & 0xff);
-- 
2.43.0


From 5c3d8acf5e50af29ea3f0c4c590e0ea91b008c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 049/101] fix: chrono: array released as a single object in
 to_str

---
 include/stdex/chrono.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..8a676c8 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -431,7 +431,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<char> buf(new char[num_chars]);
+					std::unique_ptr<char[]> buf(new char[num_chars]);
 #if _WIN32
 					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
 #else
@@ -464,7 +464,7 @@ namespace stdex {
 				}
 				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
 				for (;;) {
-					std::unique_ptr<wchar_t> buf(new wchar_t[num_chars]);
+					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
 #if _WIN32
 					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
 #else
-- 
2.43.0


From 910ecd0f2621ce61c1484be6e7f39d4e554b40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 050/101] fix: chrono: from_system(timespec) added microseconds
 as milliseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 8a676c8..8f32ce0 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From c06d535830a1c43adce8bb935661ac1cc1499ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 051/101] fix: idrec: size with padding overflowed when
 skipping the largest records

---
 include/stdex/idrec.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/stdex/idrec.hpp b/include/stdex/idrec.hpp
index 6856f7d..8b5442e 100644
--- a/include/stdex/idrec.hpp
+++ b/include/stdex/idrec.hpp
@@ -86,8 +86,7 @@ namespace stdex {
 			if (!stream.good()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.ignore(size);
+			stream.ignore(static_cast<std::streamsize>(size) + padding<T_size, N_align>(size));
 			if (!stream.good()) _Unlikely_ return false;
 
 			return true;
@@ -111,8 +110,7 @@ namespace stdex {
 			if (!stream.ok()) _Unlikely_ return false;
 
 			// Skip the record data.
-			size += padding<T_size, N_align>(size);
-			stream.skip(size);
+			stream.skip(static_cast<stdex::stream::fsize_t>(size) + padding<T_size, N_align>(size));
 			if (!stream.ok()) _Unlikely_ return false;
 
 			return true;
@@ -492,8 +490,7 @@ namespace stdex {
 				stream >> r.data; // TODO: operator >> should not read past the record data! Make a size limited stream and read from it instead.
 				if (!stream.good()) _Unlikely_ return stream;
 
-				size += padding<T_size, N_align>(size);
-				stream.seekg(start + size);
+				stream.seekg(start + size + padding<T_size, N_align>(size));
 
 				return stream;
 			}
@@ -523,8 +520,7 @@ namespace stdex {
 					if (limiter.state() == stdex::stream::state_t::fail) _Unlikely_ return stream;
 				}
 
-				size += padding<T_size, N_align>(size);
-				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size));
+				stream.seekbeg(start + static_cast<stdex::stream::fpos_t>(size) + padding<T_size, N_align>(size));
 
 				return stream;
 			}
-- 
2.43.0


From 6b4638924453a22762cc0e5310f0958ebfc17066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 052/101] fix: wav: cue list with a malformed count no longer
 allocates for more cues than there are

---
 include/stdex/wav.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5bc8f9d..5243eac 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -250,8 +250,13 @@ namespace stdex
 			uint32_t num_cues;
 			dat >> num_cues;
 			if (!dat.ok()) _Unlikely_ goto error1;
-			data.resize(num_cues);
-			data.resize(dat.read_array(data.data(), sizeof(cue), num_cues));
+			data.clear();
+			for (uint32_t i = 0; i < num_cues; ++i) {
+				cue c;
+				if (dat.read_array(&c, sizeof(cue), 1) != 1) _Unlikely_
+					break;
+				data.push_back(c);
+			}
 			return dat;
 
 		error1:
-- 
2.43.0


From d8827e81123b1e456e6e4cbc60e56e4fdbe20e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:43 +0000
Subject: [PATCH 053/101] fix: wav: read_cues ends when there are no more cue
 or list records

---
 include/stdex/wav.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 5243eac..028d2ba 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -520,7 +520,9 @@ namespace stdex
 
 			stdex::stream::fpos_t start = dat.tell();
 			while (dat.tell() < block_end) {
-				if (stdex::idrec::record<cue_vector, id_t, cue_vector_record::id(), length_t, align>::find(dat, block_end)) {
+				if (!stdex::idrec::record<cue_vector, id_t, cue_vector_record::id(), length_t, align>::find(dat, block_end))
+					break;
+				{
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
@@ -548,7 +550,9 @@ namespace stdex
 			dat.seekbeg(start);
 			while (dat.tell() < block_end) {
 				stdex::stream::fpos_t found_block_end;
-				if (find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end)) {
+				if (!find_first<list>(dat, *(const id_t*)"adtl", block_end, &found_block_end))
+					break;
+				{
 					while (dat.tell() < found_block_end) {
 						id_t id;
 						dat >> id;
-- 
2.43.0


From ac4e3669a89e6a1b3bee030d151da4476e61a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 054/101] fix: wav: read_cues reads only the cues there are,
 and leaves nothing of the previous content

---
 include/stdex/wav.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 028d2ba..097c712 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -519,6 +519,7 @@ namespace stdex
 			static int (__cdecl* cue_cmp)(void const*, void const*) = [](_In_ void const* a, _In_ void const* b) { return compare_by_id(*reinterpret_cast<const cue*>(a), *reinterpret_cast<const cue*>(b)); };
 
 			stdex::stream::fpos_t start = dat.tell();
+			cues.clear();
 			while (dat.tell() < block_end) {
 				if (!stdex::idrec::record<cue_vector, id_t, cue_vector_record::id(), length_t, align>::find(dat, block_end))
 					break;
@@ -526,23 +527,25 @@ namespace stdex
 					length_t size;
 					dat >> size;
 					if (!dat.ok()) _Unlikely_ return false;
+					stdex::stream::fpos_t end = dat.tell() + size;
 					stdex::stream::file_window _dat(dat, dat.tell(), size);
 					uint32_t num_cues;
 					_dat >> num_cues;
 					if (!_dat.ok()) _Unlikely_ return false;
-					cues.resize(num_cues);
-					size_t i;
+					cues.clear();
 					bool ordered = true;
-					for (i = 0; i < num_cues; i++) {
-						_dat.read_array(static_cast<cue*>(&cues[i]), sizeof(cue), 1);
-						if (!_dat.ok()) _Unlikely_
+					for (uint32_t i = 0; i < num_cues; i++) {
+						cue_ex c;
+						if (_dat.read_array(static_cast<cue*>(&c), sizeof(cue), 1) != 1) _Unlikely_
 							break;
-						if (i && cue_less(cues[i], cues[i - 1]))
+						if (!cues.empty() && cue_less(c, cues.back()))
 							ordered = false;
+						cues.push_back(std::move(c));
 					}
-					cues.resize(i);
 					if (!ordered)
 						std::sort(cues.begin(), cues.end(), cue_less);
+					end += (align - end) % align;
+					dat.seekbeg(end);
 				}
 			}
 
-- 
2.43.0


From 0bc223cd16c530043f26d9326f7a5cef4c0bbacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 055/101] fix: wav: remove_cues removes the cue records and
 keeps everything else

---
 include/stdex/wav.hpp | 72 +++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/stdex/wav.hpp b/include/stdex/wav.hpp
index 097c712..558bd58 100644
--- a/include/stdex/wav.hpp
+++ b/include/stdex/wav.hpp
@@ -610,13 +610,12 @@ namespace stdex
 			_Inout_ stdex::stream::basic_file& output,
 			_In_ stdex::stream::fpos_t block_end = stdex::stream::fpos_max)
 		{
-			static id_t removable[] = {
+			static const id_t removable[] = {
 				cue_vector_record::id(),
 				ltxt::record::id(),
 				label::record::id(),
 				note::record::id(),
 			};
-
 			while (input.tell() < block_end) {
 				id_t id;
 				input >> id;
@@ -624,44 +623,45 @@ namespace stdex
 				for (size_t i = 0; i < _countof(removable); i++)
 					if (id == removable[i])
 						goto remove;
-				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
-					return false;
-				continue;
-
-			remove:
-				length_t size;
-				input >> size;
-				if (!input.ok()) _Unlikely_ return false;
-				auto start = stdex::idrec::open<id_t, length_t>(output, id);
-				id_t id2 = id;
-				stdex::strupr(reinterpret_cast<char*>(&id2), sizeof(id_t) / sizeof(char));
-				if (id != id2 || id == *reinterpret_cast<const id_t*>("ICRD")) {
-					// ID is not all uppercase (or is an exception). Element is trivial and may be copied.
-					if (!output.ok()) _Unlikely_ return false;
-					output.write_stream(input, size);
-					if (!input.ok()) _Unlikely_ return false;
-					stdex::idrec::close<id_t, length_t, align>(output, start);
-					size = static_cast<length_t>(align - size) % align;
-					if (size)
-						input.seekcur(size);
-				}
-				else {
-					// ID is all uppercase. Needs recursive treatment.
-					id_t id3;
-					input >> id3;
+				{
+					length_t size;
+					input >> size;
 					if (!input.ok()) _Unlikely_ return false;
-					output << id3;
-					if (!output.ok()) _Unlikely_ return false;
-					stdex::stream::fpos_t end = output.tell();
-					if (!remove_cues(input, output, input.tell() + size - sizeof(id_t))) _Unlikely_
-						return false;
-					if (end != output.tell())
+					stdex::stream::fpos_t input_end = input.tell() + size;
+					auto start = stdex::idrec::open<id_t, length_t>(output, id);
+					if (id != header::record::id() && id != list::record::id()) {
+						// Element is trivial and may be copied.
+						if (!output.ok()) _Unlikely_ return false;
+						output.write_stream(input, size);
+						if (!input.ok()) _Unlikely_ return false;
 						stdex::idrec::close<id_t, length_t, align>(output, start);
-					else
-						output.seekbeg(start);
+					}
+					else {
+						// Element is a container. Needs recursive treatment.
+						id_t id3;
+						if (size < sizeof(id3)) _Unlikely_ return false;
+						input >> id3;
+						if (!input.ok()) _Unlikely_ return false;
+						output << id3;
+						if (!output.ok()) _Unlikely_ return false;
+						stdex::stream::fpos_t end = output.tell();
+						if (!remove_cues(input, output, input_end)) _Unlikely_
+							return false;
+						if (end != output.tell())
+							stdex::idrec::close<id_t, length_t, align>(output, start);
+						else
+							output.seekbeg(start);
+					}
+					input_end += (align - input_end) % align;
+					if (input.tell() < input_end)
+						input.seekbeg(input_end);
 				}
-			}
+				continue;
 
+			remove:
+				if (!stdex::idrec::ignore<length_t, align>(input)) _Unlikely_
+					return false;
+			}
 			output.truncate();
 			return true;
 		}
-- 
2.43.0


From 86b45df0f5e3420a591883a88f7292d79d438ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 056/101] fix: numeric SGML entity was returned in a local
 buffer

---
 include/stdex/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 03e6f13..4c02309 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -146,6 +146,12 @@ namespace stdex
 							auto entity_w = utf32_to_wstr(sgml2uni(text + start + 1, n, buf32), buf);
 							if (entity_w) {
 								chr_end++;
+								if (static_cast<const void*>(entity_w) == static_cast<const void*>(buf32)) {
+									// The code point was composed in the local buffer: return a copy.
+									buf[0] = static_cast<T_out>(buf32[0]);
+									buf[1] = 0;
+									return buf;
+								}
 								return entity_w;
 							}
 							// Unknown entity.
-- 
2.43.0


From f05cee9400cd1ad47c5c68ca1832e2a00fdd433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 057/101] fix: monetary numeral without one of the optional
 signs

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 4c02309..80b629e 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2269,17 +2269,17 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 
-				if (positive_sign->match(text, this->interval.end, end, flags)) {
+				if (positive_sign && positive_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = positive_sign->interval.end;
 					if (negative_sign) negative_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (negative_sign->match(text, this->interval.end, end, flags)) {
+				else if (negative_sign && negative_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = negative_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (special_sign) special_sign->invalidate();
 				}
-				else if (special_sign->match(text, this->interval.end, end, flags)) {
+				else if (special_sign && special_sign->match(text, this->interval.end, end, flags)) {
 					this->interval.end = special_sign->interval.end;
 					if (positive_sign) positive_sign->invalidate();
 					if (negative_sign) negative_sign->invalidate();
-- 
2.43.0


From 6dc9a5249db69a7a43313fec289ec06bd3067c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 058/101] fix: scientific numeral kept an earlier value after a
 failed match

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 80b629e..64016da 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2161,6 +2161,7 @@ namespace stdex
 					if (positive_exp_sign) positive_exp_sign->invalidate();
 					if (negative_exp_sign) negative_exp_sign->invalidate();
 					if (exponent) exponent->invalidate();
+					value = std::numeric_limits<double>::quiet_NaN();
 					this->interval.invalidate();
 					return false;
 				}
-- 
2.43.0


From ed0f318a9d65d8e4018d04429792c58a7d10267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 059/101] fix: thousand-separated integer kept earlier digit
 count after a failed match

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 64016da..15d6d23 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -1442,6 +1442,8 @@ namespace stdex
 					return true;
 				}
 				this->value = 0;
+				digit_count = 0;
+				has_separators = false;
 				this->interval.invalidate();
 				return false;
 			}
-- 
2.43.0


From 261d769955df351ce0e545a3166318df6f541bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 060/101] fix: IPv6 address value was never stored

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 15d6d23..5e00e21 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2715,6 +2715,7 @@ namespace stdex
 						goto error;
 					}
 					components[i].end = this->interval.end;
+					this->value.s6_words[i] = static_cast<uint16_t>(x);
 					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
 				}
 
-- 
2.43.0


From 903783c9a2da5b8b9e0bf18f03cd54162454a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:43 +0000
Subject: [PATCH 061/101] fix: IPv6 address: exclude trailing separators and
 empty zero compaction

---
 include/stdex/parser.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 5e00e21..72f0b39 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2650,6 +2650,7 @@ namespace stdex
 				size_t i, compaction_i = SIZE_MAX, compaction_start = start;
 				for (i = 0; i < 8; i++) {
 					bool is_empty = true;
+					size_t address_end = this->interval.end; // End of address should no component follow
 
 					if (m_separator->match(text, this->interval.end, end, flags)) {
 						// : found
@@ -2660,10 +2661,11 @@ namespace stdex
 								// Zero compaction start
 								compaction_i = i;
 								compaction_start = m_separator->interval.start;
-								this->interval.end = m_separator->interval.end;
+								address_end = this->interval.end = m_separator->interval.end;
 							}
 							else {
 								// More than one zero compaction
+								this->interval.end = address_end;
 								break;
 							}
 						}
@@ -2676,6 +2678,11 @@ namespace stdex
 						// : missing
 						break;
 					}
+					if (compaction_i != SIZE_MAX && i >= 7) {
+						// Zero compaction represents at least one component.
+						this->interval.end = address_end;
+						break;
+					}
 
 					components[i].start = this->interval.end;
 					size_t x;
@@ -2710,6 +2717,7 @@ namespace stdex
 					if (is_empty) {
 						if (compaction_i != SIZE_MAX) {
 							// Zero compaction active: no sweat.
+							this->interval.end = address_end;
 							break;
 						}
 						goto error;
-- 
2.43.0


From 5ae866ee36af7bebf48adb43aacf9f4a84e7ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:44 +0000
Subject: [PATCH 062/101] fix: ftp URL with user name only

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 72f0b39..8a17ce5 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3564,7 +3564,7 @@ namespace stdex
 							// Username and password
 							this->interval.end = m_at->interval.end;
 						}
-						else if (m_at->match(text, this->interval.end, end, flags)) {
+						else if (m_at->match(text, username->interval.end, end, flags)) {
 							// Username only
 							this->interval.end = m_at->interval.end;
 							password->invalidate();
-- 
2.43.0


From 8c54f5ba3f085daaff8e66eaf7d5e453f0f8656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 063/101] fix: IP address values were left in host byte order

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 8a17ce5..2a62600 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -2451,7 +2451,7 @@ namespace stdex
 				if (i < 4)
 					goto error;
 
-				HE2BE(reinterpret_cast<uint32_t&>(value.s_addr));
+				value.s_addr = HE2BE(value.s_addr);
 				this->interval.start = start;
 				return true;
 
@@ -2724,7 +2724,7 @@ namespace stdex
 					}
 					components[i].end = this->interval.end;
 					this->value.s6_words[i] = static_cast<uint16_t>(x);
-					HE2BE(reinterpret_cast<uint16_t&>(this->value.s6_words[i]));
+					this->value.s6_words[i] = HE2BE(this->value.s6_words[i]);
 				}
 
 				if (compaction_i != SIZE_MAX) {
-- 
2.43.0


From 9fd160e87413639473a70c1d604755918357e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:03 +0000
Subject: [PATCH 064/101] fix: creditor reference: room for 21 letters, no
 trailing space in the region

---
 include/stdex/parser.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2a62600..ba2af8c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4975,7 +4975,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				const auto& ctype = std::use_facet<std::ctype<T>>(this->m_locale);
 				const bool case_insensitive = flags & match_case_insensitive ? true : false;
-				size_t n, available, next;
+				size_t n, last, available, next;
 				uint32_t nominator;
 
 				this->interval.end = start;
@@ -4992,7 +4992,7 @@ namespace stdex
 				}
 				this->check_digits[2] = 0;
 
-				for (n = 0;;) {
+				for (n = 0, last = this->interval.end;;) {
 					if (m_space && m_space->match(text, this->interval.end, end, flags))
 						this->interval.end = m_space->interval.end;
 					for (size_t j = 0; j < 4; ++j) {
@@ -5003,7 +5003,7 @@ namespace stdex
 							if (n >= _countof(reference) - 1)
 								goto error; // reference overflow
 							this->reference[n++] = chr;
-							this->interval.end++;
+							last = ++this->interval.end;
 						}
 						else
 							goto out;
@@ -5012,6 +5012,7 @@ namespace stdex
 			out:
 				if (!n)
 					goto error; // reference too short
+				this->interval.end = last;
 				this->reference[_countof(this->reference) - 1] = 0;
 				for (size_t i = n, j = _countof(this->reference) - 1; i;)
 					this->reference[--j] = this->reference[--i];
@@ -5019,7 +5020,7 @@ namespace stdex
 					this->reference[--j] = '0';
 
 				// Normalize creditor reference.
-				T normalized[47];
+				T normalized[49];
 				available = 0;
 				for (size_t i = 0; ; ++i) {
 					if (!this->reference[i]) {
-- 
2.43.0


From 86b28d180c53d08704ff80d442b546a11b7c234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:05 +0000
Subject: [PATCH 065/101] fix: SI reference: check digit of references in
 several parts

---
 include/stdex/parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index ba2af8c..37419ae 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5462,7 +5462,7 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
 				return control == part2[num_part2 - 1] - '0';
 			}
@@ -5483,9 +5483,9 @@ namespace stdex
 				for (size_t i = num_part1; i--; ++ponder)
 					nominator += static_cast<uint32_t>(part1[i] - '0') * ponder;
 				uint8_t control = 11 - static_cast<uint8_t>(nominator % 11);
-				if (control == 10)
+				if (control >= 10)
 					control = 0;
-				return control == part2[num_part3 - 1] - '0';
+				return control == part3[num_part3 - 1] - '0';
 			}
 
 			std::shared_ptr<basic_parser<T>> m_space;
-- 
2.43.0


From a9f4e5b45bb46d2ccb9a10c22bbe140c3d25e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:30 +0000
Subject: [PATCH 066/101] fix: date: day or month of SIZE_MAX is not valid

---
 include/stdex/parser.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 37419ae..9000658 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4137,7 +4137,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (month->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value)) // Each month has 1st day.
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4155,7 +4155,7 @@ namespace stdex
 						if (m_separator->match(text, this->interval.end, end, flags)) {
 							for (this->interval.end = m_separator->interval.end; m_space->match(text, this->interval.end, end, space_match_flags); this->interval.end = m_space->interval.end);
 							if (year->match(text, this->interval.end, end, flags) &&
-								is_valid(SIZE_MAX, month->value))
+								is_valid(1, month->value)) // Each month has 1st day.
 							{
 								if (day) day->invalidate();
 								this->interval.start = start;
@@ -4225,15 +4225,6 @@ namespace stdex
 
 			static bool is_valid(size_t day, size_t month)
 			{
-				if (month == SIZE_MAX) {
-					// Default to January. This allows validating day only, as January has all 31 days.
-					month = 1;
-				}
-				if (day == SIZE_MAX) {
-					// Default to 1st day in month. This allows validating month only, as each month has 1st day.
-					day = 1;
-				}
-
 				switch (month) {
 				case 1:
 				case 3:
-- 
2.43.0


From 099f3bff5422878182702888071699278c719bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:18 +0000
Subject: [PATCH 067/101] fix: HTTP white space does not extend over the end of
 a line

---
 include/stdex/parser.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9000658..9e20c8d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5623,25 +5623,26 @@ namespace stdex
 			{
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
-				if (m_line_break.match(text, this->interval.end, end, flags)) {
+				if (m_line_break.match(text, this->interval.end, end, flags))
 					this->interval.end = m_line_break.interval.end;
-					if (this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end])) {
-						this->interval.start = start;
-						this->interval.end++;
-						while (this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end])) this->interval.end++;
-						return true;
-					}
-				}
-				else if (this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end])) {
+				if (is_space(text, this->interval.end, end, flags)) {
 					this->interval.start = start;
-					this->interval.end++;
-					while (this->interval.end < end && text[this->interval.end] && stdex::isspace(text[this->interval.end])) this->interval.end++;
+					do
+						this->interval.end++;
+					while (is_space(text, this->interval.end, end, flags));
 					return true;
 				}
 				this->interval.invalidate();
 				return false;
 			}
 
+			bool is_space(_In_reads_or_z_(end) const char* text, _In_ size_t offset, _In_ size_t end, _In_ int flags)
+			{
+				return
+					offset < end && text[offset] && stdex::isspace(text[offset]) &&
+					!m_line_break.match(text, offset, end, flags);
+			}
+
 			http_line_break m_line_break;
 		};
 
-- 
2.43.0


From 4d2583a12c17cb09c7c7e3773029ae011254c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:20 +0000
Subject: [PATCH 068/101] fix: HTTP text may contain octets above 0x7f

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9e20c8d..9cbf5b1 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5667,7 +5667,7 @@ namespace stdex
 					this->interval.end = m_space.interval.end;
 					return true;
 				}
-				else if (this->interval.end < end && text[this->interval.end] && text[this->interval.end] >= 0x20) {
+				else if (this->interval.end < end && text[this->interval.end] && (unsigned char)text[this->interval.end] >= 0x20) {
 					this->interval.start = start;
 					this->interval.end++;
 					return true;
-- 
2.43.0


From 92cfacc938711c31eb3fa97d1c53aeb0a1838129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:14 +0000
Subject: [PATCH 069/101] fix: HTTP parameter requires an equals sign

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9cbf5b1..2d271ad 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -5875,6 +5875,7 @@ namespace stdex
 				if (this->interval.end < end && text[this->interval.end] == '=')
 					this->interval.end++;
 				else
+					goto error;
 					while (m_space.match(text, this->interval.end, end, flags))
 						this->interval.end = m_space.interval.end;
 				if (value.match(text, this->interval.end, end, flags))
-- 
2.43.0


From 2636608fdf41b0a75cb67c4503a50be7db112308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 070/101] fix: HTTP URL path requires a slash

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 2d271ad..0d65b6c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6185,7 +6185,7 @@ namespace stdex
 				this->interval.end = start;
 				segments.clear();
 				stdex_assert(text || this->interval.end >= end);
-				if (this->interval.end < end && text[this->interval.end] != '/')
+				if (this->interval.end >= end || text[this->interval.end] != '/')
 					goto error;
 				this->interval.end++;
 				s.match(text, this->interval.end, end, flags);
-- 
2.43.0


From 564bc5f9b7cdaecf373413734206f0ec6ffb613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:17 +0000
Subject: [PATCH 071/101] fix: HTTP URL parameter does not read beyond the end

---
 include/stdex/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 0d65b6c..04074f6 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6260,7 +6260,7 @@ namespace stdex
 					name.end = this->interval.end;
 				else
 					goto error;
-				if (text[this->interval.end] == '=') {
+				if (this->interval.end < end && text[this->interval.end] == '=') {
 					this->interval.end++;
 					value.start = this->interval.end;
 					for (;;) {
-- 
2.43.0


From 39398166751537b624f2f79ecd0541b8b0033fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 072/101] fix: HTTP URL with an empty port uses the default
 port

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 04074f6..9cf0e7d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6336,6 +6336,8 @@ namespace stdex
 						this->interval.end++;
 						if (port.match(text, this->interval.end, end, flags))
 							this->interval.end = port.interval.end;
+						else
+							port.value = 80;
 					}
 					else {
 						port.invalidate();
-- 
2.43.0


From e3e6aa9be11880e742ba3a910c05204ca27c7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:20 +0000
Subject: [PATCH 073/101] fix: HTTP weight with many or no digits

---
 include/stdex/parser.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9cf0e7d..a817298 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6481,12 +6481,14 @@ namespace stdex
 				_In_ int flags = match_default)
 			{
 				stdex_assert(text || start >= end);
-				size_t celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
+				double celi_del = 0, decimalni_del = 0, decimalni_del_n = 1;
+				bool digits = false;
 				this->interval.end = start;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-							celi_del = celi_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
+							celi_del = celi_del * 10 + (text[this->interval.end] - '0');
+							digits = true;
 							this->interval.end++;
 						}
 						else if (text[this->interval.end] == '.') {
@@ -6494,8 +6496,11 @@ namespace stdex
 							for (;;) {
 								if (this->interval.end < end && text[this->interval.end]) {
 									if ('0' <= text[this->interval.end] && text[this->interval.end] <= '9') {
-										decimalni_del = decimalni_del * 10 + static_cast<size_t>(text[this->interval.end] - '0');
-										decimalni_del_n *= 10;
+										if (decimalni_del_n < 1e15) { // Further decimals are beyond precision.
+											decimalni_del = decimalni_del * 10 + (text[this->interval.end] - '0');
+											decimalni_del_n *= 10;
+										}
+										digits = true;
 										this->interval.end++;
 									}
 									else
@@ -6512,8 +6517,8 @@ namespace stdex
 					else
 						break;
 				}
-				if (start < this->interval.end) {
-					value = (float)((double)celi_del + (double)decimalni_del / decimalni_del_n);
+				if (digits) {
+					value = (float)(celi_del + decimalni_del / decimalni_del_n);
 					this->interval.start = start;
 					return true;
 				}
-- 
2.43.0


From f57137f7ff044f9769d6e675a14c172c7bbcec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:22 +0000
Subject: [PATCH 074/101] fix: HTTP weighted value kept an earlier weight

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index a817298..45ba20d 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6584,6 +6584,7 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				size_t konec_vrednosti;
 				this->interval.end = start;
+				factor.invalidate();
 				if (asterisk.match(text, this->interval.end, end, flags)) {
 					this->interval.end = konec_vrednosti = asterisk.interval.end;
 					value.invalidate();
-- 
2.43.0


From b67a9d0dd740caa71c39b08ce5770ec6e0a7049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:23 +0000
Subject: [PATCH 075/101] fix: HTTP agent kept an earlier version

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 45ba20d..b3c0f98 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -6786,6 +6786,8 @@ namespace stdex
 				stdex_assert(text || start >= end);
 				this->interval.end = start;
 				type.start = this->interval.end;
+				version.start = 1;
+				version.end = 0;
 				for (;;) {
 					if (this->interval.end < end && text[this->interval.end]) {
 						if (text[this->interval.end] == '/') {
-- 
2.43.0


From d8a2dc87e51d1b738ccdd3fb170263e85f9a484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:25 +0000
Subject: [PATCH 076/101] fix: HTTP header requires a name

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index b3c0f98..da43816 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7128,6 +7128,8 @@ namespace stdex
 							break;
 						}
 						else if (text[this->interval.end] == ':') {
+							if (this->interval.end == start)
+								goto error;
 							name.end = this->interval.end;
 							this->interval.end++;
 							break;
-- 
2.43.0


From 63db9cce75f78d84b940b9b2513e4667bc9cfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:09 +0000
Subject: [PATCH 077/101] fix: HTML tag parser hung on a slash before the end
 of an end tag or declaration

---
 include/stdex/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index da43816..feb29ee 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -8229,7 +8229,9 @@ namespace stdex
 
 						// Attributes follow...
 						html_attribute* a = nullptr;
-						if (this->m_ident.match(text, this->interval.end, end, flags)) {
+						if (this->m_ident.match(text, this->interval.end, end, flags) &&
+							(!this->m_ident.interval.empty() || text[this->interval.end] == '='))
+						{
 							this->attributes.push_back(std::move(html_attribute{ this->m_ident.interval }));
 							a = &this->attributes.back();
 							stdex_assert(a);
-- 
2.43.0


From a6cf340c54391030ff7870ccc9eb999b6655b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 078/101] fix: JSON string: surrogate pairs make one code point

---
 include/stdex/parser.hpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index feb29ee..1d3bbfd 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7312,22 +7312,40 @@ namespace stdex
 								m_hex->interval.size() == 4 /* JSON requests 4-digit Unicode sequneces: \u.... */)
 							{
 								stdex_assert(m_hex->value <= 0xffff);
+								uint32_t cp = static_cast<uint32_t>(m_hex->value);
+								this->interval.end = m_hex->interval.end;
+								if (sizeof(T) != 2 && 0xd800 <= cp && cp <= 0xdbff &&
+									m_escape->match(text, this->interval.end, end, flags) &&
+									m_uni->match(text, m_escape->interval.end, end, flags) &&
+									m_hex->match(text, m_uni->interval.end, std::min(m_uni->interval.end + 4, end), flags | match_case_insensitive) &&
+									m_hex->interval.size() == 4 &&
+									0xdc00 <= m_hex->value && m_hex->value <= 0xdfff)
+								{
+									// Surrogate pair
+									cp = 0x10000 + ((cp & 0x3ff) << 10) + static_cast<uint32_t>(m_hex->value & 0x3ff);
+									this->interval.end = m_hex->interval.end;
+								}
 								if (sizeof(T) == 1) {
-									if (m_hex->value > 0x7ff) {
-										value += (T)(0xe0 | ((m_hex->value >> 12) & 0x0f));
-										value += (T)(0x80 | ((m_hex->value >> 6) & 0x3f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									if (cp > 0xffff) {
+										value += (T)(0xf0 | ((cp >> 18) & 0x07));
+										value += (T)(0x80 | ((cp >> 12) & 0x3f));
+										value += (T)(0x80 | ((cp >> 6) & 0x3f));
+										value += (T)(0x80 | (cp & 0x3f));
 									}
-									else if (m_hex->value > 0x7f) {
-										value += (T)(0xc0 | ((m_hex->value >> 6) & 0x1f));
-										value += (T)(0x80 | (m_hex->value & 0x3f));
+									else if (cp > 0x7ff) {
+										value += (T)(0xe0 | ((cp >> 12) & 0x0f));
+										value += (T)(0x80 | ((cp >> 6) & 0x3f));
+										value += (T)(0x80 | (cp & 0x3f));
+									}
+									else if (cp > 0x7f) {
+										value += (T)(0xc0 | ((cp >> 6) & 0x1f));
+										value += (T)(0x80 | (cp & 0x3f));
 									}
 									else
-										value += (T)(m_hex->value & 0x7f);
+										value += (T)(cp & 0x7f);
 								}
 								else
-									value += (T)m_hex->value;
-								this->interval.end = m_hex->interval.end;
+									value += (T)cp;
 								continue;
 							}
 							if (m_escape->match(text, m_escape->interval.end, end, flags)) {
-- 
2.43.0


From fef26988e3955fb08d4bad4ad6e1a38d4988acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:18 +0000
Subject: [PATCH 079/101] fix: CSS: any unit after a backslash is escaped

---
 include/stdex/parser.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 1d3bbfd..9758a7c 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -7565,9 +7565,9 @@ namespace stdex
 						}
 						if (this->interval.end + 1 < end &&
 							text[this->interval.end] == '\\' &&
-							(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+							text[this->interval.end + 1])
 						{
-							// Escaped quote
+							// Escaped unit
 							this->interval.end = this->interval.end + 2;
 						}
 						else
@@ -7644,9 +7644,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped unit
 								this->interval.end = this->interval.end + 2;
 							}
 							else
@@ -7677,7 +7677,14 @@ namespace stdex
 								this->interval.end++;
 								return true;
 							}
-							if (ctype.is(ctype.space, text[this->interval.end]))
+							if (this->interval.end + 1 < end &&
+								text[this->interval.end] == '\\' &&
+								text[this->interval.end + 1])
+							{
+								// Escaped unit
+								this->content.end = this->interval.end = this->interval.end + 2;
+							}
+							else if (ctype.is(ctype.space, text[this->interval.end]))
 								this->interval.end++;
 							else
 								this->content.end = ++this->interval.end;
@@ -7758,9 +7765,9 @@ namespace stdex
 							}
 							if (this->interval.end + 1 < end &&
 								text[this->interval.end] == '\\' &&
-								(text[this->interval.end + 1] == '\"' || text[this->interval.end + 1] == '\''))
+								text[this->interval.end + 1])
 							{
-								// Escaped quote
+								// Escaped unit
 								this->interval.end = this->interval.end + 2;
 							}
 							else
-- 
2.43.0


From 288f8e06916967f95be9a1f1c367644c9b221a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:40 +0000
Subject: [PATCH 080/101] fix: parser: phone number without parentheses parsers

---
 include/stdex/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index 9758a7c..d8947ec 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -4532,8 +4532,8 @@ namespace stdex
 
 				this->interval.end = start;
 				value.clear();
-				m_lparenthesis->invalidate();
-				m_rparenthesis->invalidate();
+				if (m_lparenthesis) m_lparenthesis->invalidate();
+				if (m_rparenthesis) m_rparenthesis->invalidate();
 
 				if (m_plus_sign && m_plus_sign->match(text, this->interval.end, end, flags)) {
 					value.append(text + m_plus_sign->interval.start, text + m_plus_sign->interval.end);
-- 
2.43.0


From ccd5b5582e3ddb01b143c0511f6e23ba024c44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:53 +0000
Subject: [PATCH 081/101] fix: parser: emoticon mouth keeps its hit offset

---
 include/stdex/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index d8947ec..baaa96f 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -3952,6 +3952,7 @@ namespace stdex
 							hit_offset = mouth->hit_offset;
 						// Mouth may repeat :-)))))))
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
+						mouth->hit_offset = hit_offset;
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
 						this->interval.start = start;
@@ -3964,6 +3965,7 @@ namespace stdex
 						// Mouth may repeat :-)))))))
 						for (this->interval.end = mouth->interval.end; mouth->match(text, this->interval.end, end, flags) && mouth->hit_offset == hit_offset; this->interval.end = mouth->interval.end);
 						if (nose) nose->invalidate();
+						mouth->hit_offset = hit_offset;
 						mouth->interval.start = start_mouth;
 						mouth->interval.end = this->interval.end;
 						this->interval.start = start;
-- 
2.43.0


From 085f4c58bfd81df0d6f6352c0e2eeee175cd0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:43 +0000
Subject: [PATCH 082/101] fix: parser: search on nothing leaves no match region

---
 include/stdex/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/parser.hpp b/include/stdex/parser.hpp
index baaa96f..e465ad6 100644
--- a/include/stdex/parser.hpp
+++ b/include/stdex/parser.hpp
@@ -92,6 +92,7 @@ namespace stdex
 				for (size_t i = start; i < end && text[i]; i++)
 					if (match(text, i, end, flags))
 						return true;
+				invalidate();
 				return false;
 			}
 
-- 
2.43.0


From f36e67c828461074b427acab1de7fddb71409524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 083/101] fix: progress: include what is used

---
 include/stdex/progress.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 6245c04..664eff9 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -9,6 +9,7 @@
 #include "interval.hpp"
 #include <atomic>
 #include <chrono>
+#include <mutex>
 #include <shared_mutex>
 #include <vector>
 
-- 
2.43.0


From 4d3f514d5eed227f363fb703738f704ada33a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:27 +0000
Subject: [PATCH 084/101] fix: report aggregated progress in the order it was
 combined

---
 include/stdex/progress.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/progress.hpp b/include/stdex/progress.hpp
index 664eff9..4f29b7d 100644
--- a/include/stdex/progress.hpp
+++ b/include/stdex/progress.hpp
@@ -417,12 +417,12 @@ namespace stdex
 			///
 			virtual void set_range(_In_ T start, _In_ T end)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T
 					combined_start = m_host.m_start += start - m_start,
 					combined_end = m_host.m_end += end - m_end;
 				m_start = start;
 				m_end = end;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set_range(combined_start, combined_end);
 			}
@@ -434,9 +434,9 @@ namespace stdex
 			///
 			virtual void set(_In_ T value)
 			{
+				std::unique_lock<std::shared_mutex> lk(m_host.m_mutex);
 				T combined_value = m_host.m_value += value - m_value;
 				m_value = value;
-				std::shared_lock<std::shared_mutex> lk(m_host.m_mutex);
 				if (m_host.m_host)
 					m_host.m_host->set(combined_value);
 			}
-- 
2.43.0


From 41ed8eedee16d0f9bc8d3b88628526425b4f4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:21 +0000
Subject: [PATCH 085/101] fix: overwrite sensitive memory in a way compilers
 may not optimize away

---
 include/stdex/memory.hpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..f1bea87 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -7,6 +7,7 @@
 
 #include "compat.hpp"
 #include <memory>
+#include <string.h>
 
 #if defined(__GNUC__)
 #pragma GCC diagnostic push
@@ -56,6 +57,24 @@ namespace stdex
 		return std::shared_ptr<T>(p, no_delete<T>{});
 	}
 
+	///
+	/// Overwrites memory with zeros
+	///
+	/// Unlike memset(), the overwriting is never optimized away when the memory is not read afterwards.
+	///
+	/// \param[in] p     Memory to overwrite
+	/// \param[in] size  Size of memory in bytes
+	///
+	inline void sanitize_memory(_Out_writes_bytes_(size) void* p, _In_ size_t size) noexcept
+	{
+#ifdef _WIN32
+		SecureZeroMemory(p, size);
+#else
+		for (volatile unsigned char* m = static_cast<volatile unsigned char*>(p); size; --size)
+			*m++ = 0;
+#endif
+	}
+
 	// sanitizing_allocator::destroy() member generates p parameter not used warning for primitive datatypes T.
 	#pragma warning(push)
 	#pragma warning(disable: 4100)
@@ -104,11 +123,7 @@ namespace stdex
 		///
 		void deallocate(_In_ T* const p, _In_ const std::size_t n)
 		{
-#ifdef _WIN32
-			SecureZeroMemory(p, sizeof(T) * n);
-#else
-			memset(p, 0, sizeof(T) * n);
-#endif
+			sanitize_memory(p, sizeof(T) * n);
 			std::allocator<T>::deallocate(p, n);
 		}
 	};
@@ -129,11 +144,7 @@ namespace stdex
 
 		~sanitizing_blob()
 		{
-#ifdef _WIN32
-			SecureZeroMemory(m_data, N);
-#else
-			memset(m_data, 0, N);
-#endif
+			sanitize_memory(m_data, N);
 		}
 
 	public:
-- 
2.43.0


From 535a6a0582d8175ba33dfb6104455805a684556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:06 +0000
Subject: [PATCH 086/101] fix: give a character-set converter one owner

---
 include/stdex/unicode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 404e2d3..440dec7 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -156,6 +156,9 @@ namespace stdex
 		}
 
 #ifndef _WIN32
+		charset_encoder(_In_ const charset_encoder<T_from, T_to>&) = delete;
+		charset_encoder& operator =(_In_ const charset_encoder<T_from, T_to>&) = delete;
+
 		~charset_encoder()
 		{
 			iconv_close(m_handle);
-- 
2.43.0


From 618f0fcdf1ee7901d09cba88d9dbb0281b07a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:07 +0000
Subject: [PATCH 087/101] fix: complete each character-set conversion and start
 the next one afresh

---
 include/stdex/unicode.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/stdex/unicode.hpp b/include/stdex/unicode.hpp
index 440dec7..7646ec9 100644
--- a/include/stdex/unicode.hpp
+++ b/include/stdex/unicode.hpp
@@ -305,17 +305,25 @@ namespace stdex
 			dst.reserve(dst.size() + count_src);
 			T_to buf[1024 / sizeof(T_to)];
 			size_t src_size = stdex::mul(sizeof(T_from), count_src);
-			for (;;) {
+			clear();
+			for (bool finish = false;;) {
 				T_to* output = &buf[0];
 				size_t output_size = sizeof(buf);
 				errno = 0;
-				iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				if (!finish)
+					iconv(m_handle, const_cast<char**>(reinterpret_cast<const char**>(&src)), &src_size, reinterpret_cast<char**>(&output), &output_size);
+				else
+					iconv(m_handle, NULL, NULL, reinterpret_cast<char**>(&output), &output_size);
+				int error = errno;
 				dst.append(buf, reinterpret_cast<T_to*>(reinterpret_cast<char*>(buf) + sizeof(buf) - output_size));
-				if (!errno)
-					break;
-				if (errno == E2BIG)
+				if (error == E2BIG)
 					continue;
-				throw std::system_error(errno, std::system_category(), "iconv failed");
+				if (error)
+					throw std::system_error(error, std::system_category(), "iconv failed");
+				if (finish)
+					break;
+				// The source is converted. Get whatever the converter still holds.
+				finish = true;
 			}
 #endif
 		}
-- 
2.43.0


From 9248e7440d449f0858c07306215e7920ac3ffc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:51 +0000
Subject: [PATCH 088/101] fix: html::document: Keep text before marked sections
 and nest ignored ones

---
 include/stdex/html.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index b58069d..c73971e 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1681,6 +1681,11 @@ namespace stdex
 							i = m_num_parsed = m_condition_end.interval.end;
 							continue;
 						}
+						if (m_condition_start.match(source, i, num_chars)) {
+							m_num_invalid_conditions++;
+							i = m_num_parsed = m_condition_start.interval.end;
+							continue;
+						}
 						goto next_char;
 					}
 
@@ -1695,12 +1700,13 @@ namespace stdex
 
 					if (m_condition_start.match(source, i, num_chars)) {
 						auto condition_src(replace_entities(source + m_condition_start.condition.start, m_condition_start.condition.size()));
+						if (m_num_parsed < i)
+							m_sequences.push_back(std::move(std::unique_ptr<sequence>(new sequence(stdex::parser::html_sequence_t::text, m_num_parsed, i, active_element()))));
+
 						if (stdex::strncmp(condition_src.data(), condition_src.size(), "CDATA", SIZE_MAX) == 0)
 							m_is_cdata = true;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "RCDATA", SIZE_MAX) == 0)
 							m_is_rcdata = true;
-						if (m_num_invalid_conditions)
-							m_num_invalid_conditions++;
 						else if (stdex::strncmp(condition_src.data(), condition_src.size(), "IGNORE", SIZE_MAX) == 0)
 							m_num_invalid_conditions++;
 						else
-- 
2.43.0


From 10e7ba7baa819ff471012ef32949cf7ef4b447d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:33 +0000
Subject: [PATCH 089/101] fix: html::parser: Do not dereference the missing end
 of an unfinished element

---
 include/stdex/html.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index c73971e..0d2bf81 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2543,23 +2543,28 @@ namespace stdex
 							{
 								// Non-localizable
 								auto s_end = s_el_start->end;
-								stdex_assert(s_end);
 
-								if (s->interval.end < s_end->interval.start) {
+								// An element never ended spans to the end of the section being parsed.
+								const size_t s_end_start =
+									s_end ? s_end->interval.start :
+									end != m_document.m_sequences.end() ? (*end)->interval.start :
+									m_document.source().size();
+
+								if (s->interval.end < s_end_start) {
 									if (s_el_start->code != element_t::style) {
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
 										rel.to += append_token(std::move(std::unique_ptr<text_token<T, TR, AX>>(
 											new text_token<T, TR, AX>(
 												token_t::complete,
-												m_source + s->interval.end, s_end->interval.start - s->interval.end,
+												m_source + s->interval.end, s_end_start - s->interval.end,
 												0,
-												m_offset->get()))),
+												m_offset != end ? m_offset->get() : nullptr))),
 											token->text);
 									}
 									else {
 										// Partially parse CSS. It may contain URLs we need to make absolute.
-										auto t = parse_css(s->interval.end, s_end->interval.start);
+										auto t = parse_css(s->interval.end, s_end_start, m_offset != end ? m_offset->get() : nullptr);
 										stdex_assert(t);
 										rel.from = s->interval.start;
 										token->mapping.push_back(rel);
@@ -2619,7 +2624,7 @@ namespace stdex
 			///
 			/// Parses CSS
 			///
-			text_token<T, TR, AX>* parse_css(size_t start, size_t end)
+			text_token<T, TR, AX>* parse_css(size_t start, size_t end, _In_opt_ sequence* sequence)
 			{
 				stdex::interval<size_t> section, content;
 				std::unique_ptr<text_token<T, TR, AX>> token(
@@ -2627,7 +2632,7 @@ namespace stdex
 						token_t::complete,
 						nullptr, 0,
 						0,
-						m_offset->get()));
+						sequence));
 
 				for (;;) {
 					if (m_css_comment.match(m_source, start, end)) {
@@ -2650,7 +2655,7 @@ namespace stdex
 							new url_token<T, TR, AX>(
 								nullptr, 0,
 								token_url_t::css,
-								m_offset->get()));
+								sequence));
 						css_unescape(t_url->url, m_source + content.start, content.size());
 						token->text.append(m_source + start, content.start - start);
 						append_token(std::move(t_url), token->text);
-- 
2.43.0


From 0bbb5d5302f2657e62f0b01cf6bed284b8755400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:34 +0000
Subject: [PATCH 090/101] fix: html::parser: Do not offset text mapping twice

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 0d2bf81..59723af 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2470,7 +2470,7 @@ namespace stdex
 					if (s->type == stdex::parser::html_sequence_t::text) {
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
-						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, rel, &token->mapping);
+						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(rel.from, 0), &token->mapping);
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From ebb76b13376a63662bdb694759076181e72943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:36 +0000
Subject: [PATCH 091/101] fix: html::parser: Do not let character references
 forge token tags

---
 include/stdex/html.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index 59723af..f4f31cc 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2471,6 +2471,11 @@ namespace stdex
 						rel.from = s->interval.start;
 						token->mapping.push_back(rel);
 						stdex::sgml2strcat(token->text, m_source + s->interval.start, s->interval.size(), 0, stdex::mapping<size_t>(rel.from, 0), &token->mapping);
+						// Character references may decode to characters reserved for token tags.
+						for (size_t i = rel.to; i < token->text.size(); ++i) {
+							if (token->text[i] == static_cast<T>(token_tag_start) || token->text[i] == static_cast<T>(token_tag_end))
+								token->text[i] = ' ';
+						}
 						rel.to = token->text.size();
 						if (!(token->text_type & has_text) &&
 							!stdex::isblank(m_source + s->interval.start, s->interval.size()))
-- 
2.43.0


From 80c8a78cd54ee9462f822151ec4263f46889c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:37 +0000
Subject: [PATCH 092/101] fix: html::parser: Let merge() add tokens

---
 include/stdex/html.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index f4f31cc..d74c8f7 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -2370,7 +2370,7 @@ namespace stdex
 			{
 				for (auto i2 = b.begin(); i2 != b.end(); ++i2) {
 					auto t2 = *i2;
-					for (auto i1 = a.begin(); i1 != a.end(); ++i1) {
+					for (auto i1 = a.begin(); ; ++i1) {
 						if (i1 == a.end()) {
 							a.push_back(t2);
 							break;
-- 
2.43.0


From 3d2254dafda2a86b7e425dd2f7d70869059a87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:38 +0000
Subject: [PATCH 093/101] fix: html::document: Take entity value without quotes

---
 include/stdex/html.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/html.hpp b/include/stdex/html.hpp
index d74c8f7..9170faa 100644
--- a/include/stdex/html.hpp
+++ b/include/stdex/html.hpp
@@ -1838,7 +1838,12 @@ namespace stdex
 								{
 									std::unique_ptr<entity<T, TR, AX>> e(new entity<T, TR, AX>());
 									e->name = m_tag.attributes[2].name;
-									e->value = std::move(replace_entities(source + m_tag.attributes[3].name.start, m_tag.attributes[3].name.size()));
+									auto value = m_tag.attributes[3].name;
+									if (value.start < value.end && (source[value.start] == '"' || source[value.start] == '\'')) {
+										for (value.end = value.start + 1; value.end < m_tag.interval.end && source[value.end] != source[value.start]; value.end++);
+										value.start++;
+									}
+									e->value = std::move(replace_entities(source + value.start, value.size()));
 									m_entities.push_back(std::move(e));
 								}
 
-- 
2.43.0


From 35bc5f8e4170b1f48c48b44e3cf0052ce60b323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:50 +0000
Subject: [PATCH 094/101] fix: format texts that do not fit into the stack
 buffer

---
 include/stdex/string.hpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 7999b53..abfe805 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2674,8 +2674,9 @@ namespace stdex
 		T buf[1024 / sizeof(T)];
 
 		// Try with stack buffer first.
+		errno = 0;
 		int count = vsnprintf(buf, _countof(buf), format, locale, arg);
-		if (0 <= count && static_cast<size_t>(count) <= _countof(buf)) {
+		if (0 <= count && static_cast<size_t>(count) < _countof(buf)) {
 			// Copy from stack.
 			str.append(buf, static_cast<size_t>(count));
 			return static_cast<size_t>(count);
@@ -2699,19 +2700,25 @@ namespace stdex
 #else
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
-			switch (errno) {
-			case EOVERFLOW:
-				// Allocate on heap and retry.
-				str.resize(offset + capacity);
-				count = vsnprintf(&str[offset], capacity, format, locale, arg);
-				if (0 <= count && static_cast<size_t>(count) <= capacity) {
-					str.resize(offset + static_cast<size_t>(count));
-					return static_cast<size_t>(count);
+			if (count < 0) {
+				str.resize(offset);
+				switch (errno) {
+				case 0:
+				case EOVERFLOW: break;
+				case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
+				case EILSEQ: throw std::runtime_error("encoding error");
+				default: throw std::runtime_error("failed to format string");
 				}
-				break;
-			case EINVAL: throw std::invalid_argument("invalid vsnprintf arguments");
-			case EILSEQ: throw std::runtime_error("encoding error");
-			default: throw std::runtime_error("failed to format string");
+			}
+			else if (capacity <= static_cast<size_t>(count))
+				capacity = static_cast<size_t>(count) + 1;
+			// Allocate on heap and retry.
+			str.resize(offset + capacity);
+			errno = 0;
+			count = vsnprintf(&str[offset], capacity, format, locale, arg);
+			if (0 <= count && static_cast<size_t>(count) < capacity) {
+				str.resize(offset + static_cast<size_t>(count));
+				return static_cast<size_t>(count);
 			}
 		}
 #endif
-- 
2.43.0


From 9d27fd0d428d40d9c230525d5d92c96160e9366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:50 +0000
Subject: [PATCH 095/101] fix: end when a time is formatted to an empty text

---
 include/stdex/string.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index abfe805..0f89745 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2843,20 +2843,24 @@ namespace stdex
 	{
 		T buf[1024 / sizeof(T)];
 
+		// Add a character, to tell empty text from insufficient buffer.
+		std::basic_string<T> format_ex(format);
+		format_ex += static_cast<T>(' ');
+
 		// Try with stack buffer first.
-		size_t count = strftime(buf, _countof(buf), format, time, locale);
+		size_t count = strftime(buf, _countof(buf), format_ex.c_str(), time, locale);
 		if (count) {
 			// Copy from stack.
-			str.append(buf, count);
+			str.append(buf, count - 1);
 			return;
 		}
 		size_t offset = str.size();
 		for (size_t capacity = 2 * 1024 / sizeof(T);; capacity *= 2) {
 			// Allocate on heap and retry.
 			str.resize(offset + capacity);
-			count = strftime(&str[offset], capacity + 1, format, time, locale);
+			count = strftime(&str[offset], capacity + 1, format_ex.c_str(), time, locale);
 			if (count) {
-				str.resize(offset + count);
+				str.resize(offset + count - 1);
 				return;
 			}
 		}
-- 
2.43.0


From 57918cbfdf47ea4dd645caa9a9b84a6b1259583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:11 +0000
Subject: [PATCH 096/101] fix: end when a timestamp is formatted to an empty
 text

---
 include/stdex/chrono.hpp | 55 ++++------------------------------------
 1 file changed, 5 insertions(+), 50 deletions(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 8f32ce0..91910a8 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -9,6 +9,7 @@
 #include "math.hpp"
 #include "system.hpp"
 #include "locale.hpp"
+#include "string.hpp"
 #include <stdint.h>
 #include <chrono>
 #include <ctime>
@@ -418,31 +419,8 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<char, TR, AX> str;
-				char stack_buffer[1024 / sizeof(char)];
-				size_t n;
-#if _WIN32
-				n = _strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#else
-				n = strftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#endif
-				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
-					return str;
-				}
-				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
-				for (;;) {
-					std::unique_ptr<char[]> buf(new char[num_chars]);
-#if _WIN32
-					n = _strftime_l(buf.get(), num_chars, format, &date, locale);
-#else
-					n = strftime_l(buf.get(), num_chars, format, &date, locale);
-#endif
-					if (n) {
-						str.assign(buf.get(), buf.get() + n);
-						return str;
-					}
-					num_chars = stdex::mul(num_chars, 2);
-				}
+				stdex::strcatftime(str, format, &date, locale);
+				return str;
 			}
 
 			template<class TR = std::char_traits<wchar_t>, class AX = std::allocator<wchar_t>>
@@ -451,31 +429,8 @@ namespace stdex {
 				struct tm date;
 				to_system(tp, date);
 				std::basic_string<wchar_t, TR, AX> str;
-				wchar_t stack_buffer[1024 / sizeof(wchar_t)];
-				size_t n;
-#if _WIN32
-				n = _wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#else
-				n = wcsftime_l(stack_buffer, _countof(stack_buffer), format, &date, locale);
-#endif
-				if (n) {
-					str.assign(stack_buffer, stack_buffer + n);
-					return str;
-				}
-				size_t num_chars = stdex::mul(_countof(stack_buffer), 2);
-				for (;;) {
-					std::unique_ptr<wchar_t[]> buf(new wchar_t[num_chars]);
-#if _WIN32
-					n = _wcsftime_l(buf.get(), num_chars, format, &date, locale);
-#else
-					n = wcsftime_l(buf.get(), num_chars, format, &date, locale);
-#endif
-					if (n) {
-						str.assign(buf.get(), buf.get() + n);
-						return str;
-					}
-					num_chars = stdex::mul(num_chars, 2);
-				}
+				stdex::strcatftime(str, format, &date, locale);
+				return str;
 			}
 
 			template<class TR = std::char_traits<char>, class AX = std::allocator<char>>
-- 
2.43.0


From 72bab6484297a0ae74dc0803e9d33dddf71eb251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:11 +0000
Subject: [PATCH 097/101] fix: fill all of the broken-down time of a timestamp

---
 include/stdex/chrono.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 91910a8..6d614ba 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -310,6 +310,7 @@ namespace stdex {
 				uint16_t millisecond;
 				int32_t year;
 				to_dmy(tp, &day, &month, &year, &hour, &minute, &second, &millisecond);
+				date = {};
 				date.tm_sec = second;
 				date.tm_min = minute;
 				date.tm_hour = hour;
@@ -317,7 +318,7 @@ namespace stdex {
 				date.tm_mon = month - 1;
 				date.tm_year = year - 1900;
 				date.tm_wday = (static_cast<int>(aosn_date::day_of_week(to_date(tp))) + 1) % 7;
-				date.tm_yday = 0;
+				date.tm_yday = static_cast<int>((to_date(tp) - aosn_date::from_dmy(1, 1, year)).count());
 				date.tm_isdst = 0;
 			}
 
-- 
2.43.0


From 51d901e10d0906aa82ac264a2e97d0adf7284a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:26 +0000
Subject: [PATCH 098/101] fix: collate texts up to their end only

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 0f89745..1414159 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From 89feff99037f4934dd06404165daf86a94986868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:58 +0000
Subject: [PATCH 099/101] fix: keep the action to execute on leaving the scope

---
 include/stdex/scoped_executor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..a2d2bef 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -18,7 +18,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		F_done m_done;
 
 	public:
 		///
@@ -37,7 +37,7 @@ namespace stdex
 		///
 		~scoped_executor()
 		{
-			std::forward<F_done&&>(m_done)();
+			m_done();
 		}
 	};
 }
-- 
2.43.0


From 7d84bbacdcd9e87a25e67bca42853b8258281a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:05 +0000
Subject: [PATCH 100/101] fix: report failure to cut the file a memory file is
 saved to

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 19a3e45..fd2ee04 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3620,6 +3620,7 @@ namespace stdex
 					return;
 				}
 				f.truncate();
+				m_state = f.state();
 #if SET_FILE_OP_TIMES
 				f.set_ctime(m_ctime);
 				f.set_atime(m_atime);
-- 
2.43.0


From 743d55d0e96410ef60d70275455265a9264ef1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:48 +0000
Subject: [PATCH 101/101] fix: end reading at the end of the compressed data

---
 include/stdex/zlib.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/stdex/zlib.hpp b/include/stdex/zlib.hpp
index 1d2ad70..821db5a 100644
--- a/include/stdex/zlib.hpp
+++ b/include/stdex/zlib.hpp
@@ -122,7 +122,8 @@ namespace stdex
 		zlib_reader(_Inout_ stdex::stream::basic& source, _In_ uInt block_size = 0x10000) :
 			stdex::stream::converter(source),
 			m_block_size(block_size),
-			m_block(new Byte[block_size])
+			m_block(new Byte[block_size]),
+			m_end(false)
 		{
 			memset(&m_zlib, 0, sizeof(m_zlib));
 			throw_on_zlib_error(inflateInit(&m_zlib));
@@ -140,6 +141,10 @@ namespace stdex
 			stdex_assert(data || !length);
 			size_t num_read = 0;
 			while (length) {
+				if (m_end) {
+					m_state = num_read ? stdex::stream::state_t::ok : stdex::stream::state_t::eof;
+					return num_read;
+				}
 				uInt num_deflated = static_cast<uInt>(std::min<size_t>(length, UINT_MAX));
 				m_zlib.avail_out = num_deflated;
 				m_zlib.next_out = reinterpret_cast<Bytef*>(data);
@@ -153,12 +158,17 @@ namespace stdex
 								m_state = stdex::stream::state_t::ok;
 								return num_read;
 							}
-							m_state = m_source->state();
+							m_state = m_zlib.total_in ? stdex::stream::state_t::fail : m_source->state(); // Is compressed data truncated?
 							return 0;
 						}
 					}
-					throw_on_zlib_error(inflate(&m_zlib, Z_NO_FLUSH));
-				} while (m_zlib.avail_out);
+					int result = inflate(&m_zlib, Z_NO_FLUSH);
+					throw_on_zlib_error(result);
+					if (result == Z_NEED_DICT) _Unlikely_
+						throw std::runtime_error("zlib dictionary required");
+					m_end = result == Z_STREAM_END;
+				} while (m_zlib.avail_out && !m_end);
+				num_deflated -= m_zlib.avail_out;
 				num_read += num_deflated;
 				reinterpret_cast<Bytef*&>(data) += num_deflated;
 				length -= num_deflated;
@@ -171,6 +181,7 @@ namespace stdex
 		z_stream m_zlib;
 		uInt m_block_size;
 		std::unique_ptr<Byte[]> m_block;
+		bool m_end;
 	};
 }
 
-- 
2.43.0

