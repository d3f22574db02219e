From 68c9ae9f958fbd9cfdccd04122d96b5b9aa82fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 001/103] fix: let the compressor thread run again after
 tpie_finish and tpie_init

m_done stayed set after the first tpie_finish, so the compressor thread of a
second tpie_init ended at once and the next block flush waited forever.
---
 tpie/compressed/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..9770cd4 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -113,7 +113,11 @@ public:
 				m_idle = true;
 				m_newRequest.wait(lock);
 			}
-			if (m_done && m_requests.empty()) break;
+			if (m_done && m_requests.empty()) {
+				// Allow the thread to be run again (tpie_finish, tpie_init).
+				m_done = false;
+				break;
+			}
 			{
 				compressor_request r = m_requests.front();
 				m_requests.pop();
-- 
2.43.0


From 1ef269491f305cfda981475e8ad9003962a551f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 002/103] fix: a file_stream write after read_back must not
 count as an append

read_back left m_cachedWrites from a preceding write, so the next write took
the cheap path: size() grew although an existing item was overwritten, and a
compressed stream accepted a write in the middle.
---
 tpie/compressed/stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..3148e1a 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -475,6 +475,8 @@ public:
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
 		++m_cachedReads;
+		// We are no longer at the end of the stream.
+		m_cachedWrites = 0;
 		--m_offset;
 		m_nextItem -= sizeof(T);
 		return *reinterpret_cast<const T *>(m_nextItem);
-- 
2.43.0


From fd10b8d05e3d11c8c6a98e944145ae85503dfa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 003/103] fix: set_position within the current block must drop
 cached read/write counts

m_cachedReads and m_cachedWrites described the old offset, so reads could run
past the end of the stream and writes could be counted as appends.
---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..eadc7d1 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1181,6 +1181,7 @@ stream_position compressed_stream_base::get_position() {
 }
 
 void compressed_stream_base::set_position(const stream_position & pos) {
+	m_p->uncache_read_writes();
 	m_p->m_updateReadOffsetFromWrite = false;
 	
 	// If the code is correct, short circuiting is not necessary;
-- 
2.43.0


From 4d15e4aa92952d4bccbf15cde6020498f7aadaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 004/103] fix: read_back after get_position at the end of a
 full compressed block

get_position flushes a full last block and starts an empty one, but left
m_readOffset pointing at an older block, so the next read_back read garbage
and ended the compressor thread with an exception.
---
 tpie/compressed/stream_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index eadc7d1..1f78eb4 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1157,6 +1157,8 @@ stream_position compressed_stream_base::get_position() {
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			// As when seeking to the end: read_back goes on from here.
+			m_p->m_readOffset = m_p->current_file_size(lock);
 		}
 		break;
 	case seek_state::end:
-- 
2.43.0


From f1fa57383791d653370a2110bdc0dd50335552be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 005/103] fix: truncating a compressed stream to a block
 boundary left an empty block

truncate(position) kept the block beginning at the position as an empty, dirty
last block. It was written out on close, so the stream header pointed at an
empty block and seeking to the end of the reopened stream failed.
---
 tpie/compressed/stream_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 1f78eb4..5bde379 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -464,7 +464,14 @@ public:
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
 	
-		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
+		const bool blockBoundary = block_item_index(offset) == 0;
+		if (blockBoundary) {
+			// The block before pos becomes the last block, so load that one;
+			// the block that begins at pos must not be kept as an empty block.
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(read_direction::backward);
+		} else if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
 			perform_seek();
 		}
@@ -472,7 +479,7 @@ public:
 		// We are truncating into the currently loaded block.
 		if (buffer_block_number() < m_streamBlocks) {
 			m_streamBlocks = buffer_block_number() + 1;
-			m_lastBlockReadOffset = pos.read_offset();
+			m_lastBlockReadOffset = blockBoundary ? m_readOffset : pos.read_offset();
 			m_currentFileSize = std::numeric_limits<stream_size_type>::max();
 			compressor_thread_lock l(compressor());
 			m_response.clear_block_info();
-- 
2.43.0


From 6d56ce97beae41dd0b80a5b9dfd5cf9057b09d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 006/103] fix: get_position at the end of a rewritten
 compressed block

When the last block of a reopened stream is filled up, its compressed size
changes when it is rewritten, but get_position answered with the old end of
the block. Flush the block first, as for a new block.
---
 tpie/compressed/stream_base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 5bde379..13086a1 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1149,7 +1149,10 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+		if (m_p->buffer_block_number() != m_p->m_streamBlocks
+			// The end of a block that is about to be rewritten is not known yet.
+			&& !(m_p->m_bufferDirty && m_nextItem == m_bufferEnd))
+		{
 			if (m_nextItem == m_bufferEnd)
 				return stream_position(m_p->m_nextReadOffset, m_offset);
 			else
-- 
2.43.0


From 5f2e0cf6f5c8990b91f547c03441840609645c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 007/103] fix: truncate(0) must forget block info after pending
 writes have finished

A write request still in the queue recorded its block number after
clear_block_info(), and the next get_position, seek to the end or close threw
'Wanted block number 0, but recalled was 1'.
---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 13086a1..f5b98fe 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -400,10 +400,11 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		// Only now: a pending write request records its block info when done.
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From 443813489a0edd0ee1ee0f85fdcca425517bcef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 008/103] fix: size stream buffers by the stream's own block
 size

All buffers had the capacity of the default block size, so a file_stream with a
block factor above 1 wrote past the end of its buffer.
---
 tpie/compressed/buffer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..6f5364b 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -332,6 +332,9 @@ public:
 
 			// Bump use count before cleaning.
 			buffer_t result = target->second;
+			// Buffers come from the pool with the capacity of the default block size
+			// or of the stream that shared them last.
+			if (result->capacity() != m_blockSize) result->set_capacity(m_blockSize);
 			clean();
 			result->reset();
 			return result;
-- 
2.43.0


From c170206f1583e89b2199c9072e9ff65a7d24151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 009/103] fix: a never attached file stream must not free an
 uninitialised block

---
 tpie/file_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/file_base.h b/tpie/file_base.h
index 59c0966..56d6c8d 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -151,7 +151,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		stream(file_base & file, stream_size_type offset=0);
 
-		stream() : m_file(0) {}
+		stream() : m_file(0), m_block(0) {}
 
 	private:
 		///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 365c989e2e6a91f8dd9fa3aa2a9f9183a84c6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 010/103] fix: reading at the end of an uncompressed stream
 must not move its offset

---
 tpie/file.h                | 2 +-
 tpie/uncompressed_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..928214c 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,10 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..f7ee015 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,10 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From 4ccfc10393216d30b84a7367575dfe6a1f83e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 011/103] fix: relative seeks must respect a pending seek and
 the end of the stream

---
 tpie/stream_crtp.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..8b3b82e 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -53,12 +53,15 @@ public:
 		if (whence == end)
 			offset += self().size();
 		else if (whence == current) {
-			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			// are we seeking into the current block? (m_index is maxint when
+			// there is no current block)
+			if (m_index != std::numeric_limits<memory_size_type>::max()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
-				if (new_index < self().get_file().block_items()) {
-					self().update_vars();
+				self().update_vars();
+				if (new_index < self().get_file().block_items()
+					&& new_index <= self().get_block().size) {
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
 				}
-- 
2.43.0


From b7ccebcda9f0279d77f9ae5871d91870188f3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 012/103] fix: reading an array past the end of a stream must
 throw, not return stale items

---
 tpie/stream_crtp.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 8b3b82e..c3b7249 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -169,19 +169,13 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
-		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
-
-					throw end_of_stream_exception();
-				}
+		// check to make sure we have enough items in the stream
+		if (stream.offset() + (end-i) > stream.size())
+			throw end_of_stream_exception();
 
-				// fetch next block from disk
-				stream.update_block();
-			}
+		while (i != end) {
+			// fetch next block from disk
+			if (stream.m_index >= stream.block_items()) stream.update_block();
 
 			T * src = reinterpret_cast<T*>(stream.get_block().data) + stream.m_index;
 
-- 
2.43.0


From 2a3c99a1a6cf5ba1d23279455656beaaa9602bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 013/103] fix: read_back at the beginning must throw
 end_of_stream_exception

---
 tpie/file.h                | 1 +
 tpie/uncompressed_stream.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tpie/file.h b/tpie/file.h
index 928214c..0ff9f22 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -142,6 +142,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		inline const item_type & read_back() {
 			assert(get_file().is_open());
+			if (!this->can_read_back()) throw end_of_stream_exception();
 			seek(-1, current);
 			const item_type & i = read();
 			seek(-1, current);
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index f7ee015..ccd5509 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -113,6 +113,7 @@ public:
 	/////////////////////////////////////////////////////////////////////////
 	inline const item_type & read_back() {
 		assert(m_open);
+		if (!can_read_back()) throw end_of_stream_exception();
 		skip_back();
 		return peek();
 	}
-- 
2.43.0


From cc7afa6a69be9c4e5e75b96f69291995ec7f3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 014/103] fix: reading beyond the end of a truncated file must
 throw instead of looping forever

---
 tpie/file_accessor/posix.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..feee7b5 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -75,6 +75,8 @@ inline void posix::read_i(void * data, memory_size_type size) {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
 		if (bytesRead == -1)
 			throw_errno();
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From 0e82073538eac752ffe2f958f2a07798d6e39fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 015/103] fix: get_metadata of a serialized B-tree must read at
 the metadata, not at the current position

---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..1bc186a 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -602,6 +602,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From 73f7ded488f523280b79ccea3c68edc611298e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 016/103] fix: B-tree find must return the first of several
 values with equal keys

---
 tpie/btree/btree.h | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..4268174 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -377,28 +377,9 @@ public:
 	 */
 	template <typename K, typename X=enab>
 	iterator find(K v, enable<X, is_ordered> =enab()) const {
-		iterator itr(&m_state);
-
-		if(m_state.store().height() == 0) {
-			itr.goto_end();
-			return itr;
-		}
-
-		std::vector<internal_type> path;
-		leaf_type l = find_leaf<true>(path, v);
-	
-		size_t i=0;
-		size_t z = m_state.store().count(l);
-		while (true) {
-			if (i == z) {
-				itr.goto_end();
-				return itr;
-			}
-			if (!m_comp(m_state.min_key(l, i), v) &&
-				!m_comp(v, m_state.min_key(l, i))) break;
-			++i;
-		}
-		itr.goto_item(path, l, i);
+		iterator itr = lower_bound(v);
+		const iterator e = end();
+		if (itr != e && m_comp(v, m_state.min_key(itr.dereference()))) return e;
 		return itr;
 	}
 
-- 
2.43.0


From 0e593f1129ad8eeb6e16722c5543a5f82ffbdf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 017/103] fix: an empty serialized B-tree must be iterable
 right after building

---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 1bc186a..bd162bf 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -574,6 +574,7 @@ private:
 			h.root = root_leaf->my_offset;
 		} else {
 			assert(m_size == 0);
+			root_leaf = leaf_type(0);
 		}
 		h.height = m_height;
 		h.size = m_size;
-- 
2.43.0


From 3bc66f5e68b67b49c8569f875d7774f1cf178ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 018/103] fix: extract_min of the pointer merge heap did not
 compile

---
 tpie/mergeheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/mergeheap.h b/tpie/mergeheap.h
index 1fe76a1..d8467d9 100644
--- a/tpie/mergeheap.h
+++ b/tpie/mergeheap.h
@@ -97,8 +97,8 @@ namespace tpie {
 			/// delete_min_and_insert().
 			///////////////////////////////////////////////////////////////////////////
 			void extract_min(REC& el, size_t& run_id) {
-				el=*pq.top().ptr;
-				run_id=*pq.top().run_id();
+				el=*pq.top().recptr;
+				run_id=pq.top().run_id;
 				pq.pop();
 			}
 			
-- 
2.43.0


From c7ab4b7fd9dd073f0eaae0ac3b49bbd0ce8a82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 019/103] fix: assigning an array to itself lost its contents

---
 tpie/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..70d281c 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
-- 
2.43.0


From 3c01d2b7e4aea88f9c8a62ab2c92e63de9374a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 020/103] fix: packed_array with 32 or 64 bits per element used
 an empty mask

---
 tpie/packed_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..3f43998 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -125,7 +125,7 @@ private:
 	/// \brief Mask that will extract the lowest order logical element.
 	///////////////////////////////////////////////////////////////////////////
 	static storage_type mask() {
-		return (1 << B)-1;
+		return ~storage_type(0) >> (sizeof(storage_type) * 8 - B);
 	}
 
 	template <bool forward>
@@ -365,7 +365,7 @@ public:
 	void fill(T value) {
 		storage_type x=0;
 		for (size_t i=0; i < perword(); ++i) 
-			x = (x << B) + ((storage_type)value & mask());
+			x |= ((storage_type)value & mask()) << (B*i);
 		for (size_t i=0; i < words(m_size); ++i)
 			m_elements[i] = x;		
 	}
-- 
2.43.0


From c801bf4a7338bef34fda5743d04cfd898f71e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 021/103] fix: assigning one packed_array element to another
 through iterators did not copy the value

---
 tpie/packed_array.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 3f43998..f7551f9 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -153,6 +153,15 @@ private:
 			*p = (*p & ~(mask()<<i)) | ((b & mask()) << i);
 	 		return *this;
 		}
+
+		/////////////////////////////////////////////////////////
+		/// \brief Assigns the value of another element; does not
+		/// rebind the reference.
+		/////////////////////////////////////////////////////////
+		iter_return_type(const iter_return_type &) = default;
+		iter_return_type & operator=(const iter_return_type & t) {
+			return *this = (T) t;
+		}
 	};
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From df7595dce2f618f144565f3ff09588b5512c4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 022/103] fix: adding two memory usages multiplied their
 overheads

---
 tpie/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/util.h b/tpie/util.h
index a908d1b..9ab3f1f 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -79,7 +79,7 @@ struct linear_memory_usage {
 	}
 
     constexpr friend linear_memory_usage operator + (const linear_memory_usage & l, const linear_memory_usage & r) noexcept {
-		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead * r.overhead);
+		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead + r.overhead);
 	}
 };
 
-- 
2.43.0


From 3096051d842707fa8a3d211af1110fab90cf40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 023/103] fix: tiny multiset and multimap must insert by the
 given order on keys

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..8622866 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 153e459ca849417188fefd4bab190b8a95799e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 024/103] fix: tiny erase of a range must return the iterator
 following the range

---
 tpie/tiny.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 8622866..b100902 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -315,9 +315,7 @@ public:
 	 * last removed element.
 	 */
 	iterator erase(iterator first, iterator last) {
-		std::rotate(first, last, inner.end());
-		inner.resize(size() - (last-first));
-		return begin();
+		return inner.erase(first, last);
 	}
 
 	/**
-- 
2.43.0


From f71d4bdafb3ab80f5f57d4f1287644962ccbe5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 025/103] fix: tiny operators > and <= must use the container's
 order like < and >=

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index b100902..4846de3 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -528,7 +528,7 @@ public:
 	 * less than or equal the contents of rhs, false otherwise.
 	 */
 	friend bool operator<=(const set_impl & lhs, const set_impl & rhs) {
-		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return !std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 		
 	}
 
@@ -537,7 +537,7 @@ public:
 	 * greater than the contents of rhs, false otherwise.
 	 */
 	friend bool operator>(const set_impl & lhs, const set_impl & rhs) {
-		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end());
+		return std::lexicographical_compare(rhs.begin(), rhs.end(), lhs.begin(), lhs.end(), lhs.comp);
 	}
 
 	/**
-- 
2.43.0


From 58b702912c6eea28c976f372fadf3e4a46c868af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 026/103] fix: std::copy with reverse iterators of tpie::array
 copied the wrong elements

---
 tpie/array.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 70d281c..54843b0 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -712,13 +712,14 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-/// \brief std::copy template specialization for tpie::array.
+/// \brief std::copy template specialization for forward
+///        iterators of tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
@@ -727,10 +728,10 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
 	return copy(&*first, &*last, d_first);
@@ -739,11 +740,11 @@ copy(tpie::array_iter_base<TT, forward> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
-- 
2.43.0


From 5ae1441c1767d67f620223638f6b6bf59d825992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 027/103] fix: containers of library types must serialize with
 any reader or writer

---
 tpie/serialization2.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tpie/serialization2.h b/tpie/serialization2.h
index a594439..5cf7d3a 100644
--- a/tpie/serialization2.h
+++ b/tpie/serialization2.h
@@ -110,6 +110,43 @@ void unserialize(S & src, T & v,
 	src.read((char *)&v, sizeof(T));
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Declare the overloads below, so that they are found for the elements of a
+// container whichever namespace the reader or writer lives in.
+///////////////////////////////////////////////////////////////////////////////
+template <typename D, typename T>
+void serialize(D & dst, T start, T end);
+template <typename D, typename T>
+void unserialize(D & dst, T start, T end);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const T (&x)[size]);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, T (&x)[size]);
+template <typename D, typename T, std::size_t size>
+void serialize(D & dst, const std::array<T, size> & v);
+template <typename S, typename T, std::size_t size>
+void unserialize(S & src, std::array<T, size> & v);
+template <typename D, typename T, typename alloc_t>
+void serialize(D & dst, const std::vector<T, alloc_t> & v);
+template <typename S, typename T, typename alloc_t>
+void unserialize(S & src, std::vector<T, alloc_t> & v);
+template <typename D, typename T>
+void serialize(D & dst, const tpie::array<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, tpie::array<T> & v);
+template <typename D, typename T>
+void serialize(D & dst, const std::basic_string<T> & v);
+template <typename S, typename T>
+void unserialize(S & src, std::basic_string<T> & v);
+template <typename D, typename T, typename U>
+void serialize(D & dst, const std::pair<T,U> & v);
+template <typename S, typename T, typename U>
+void unserialize(S & src, std::pair<T,U> & v);
+template <typename D, typename... Ts>
+void serialize(D & dst, const std::tuple<Ts...> & t);
+template <typename S, typename... Ts>
+void unserialize(S & src, std::tuple<Ts...> & t);
+
 namespace bits {
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 98fb199caf93b291b0776f13cc750e787dfb8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 028/103] fix: a failed read from a serialization stream must
 not move the reader

---
 tpie/serialization_stream.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..0b13798 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -326,11 +326,11 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
@@ -351,12 +351,9 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	const stream_size_type next = m_blockSize == 0 ? 0 : m_blockNumber + 1;
+	read_block(next);
+	m_blockNumber = next;
 }
 
 serialization_reader::serialization_reader()
@@ -383,8 +380,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
-- 
2.43.0


From 2585a3705c0b3c87d02cb4563dd16ac648bca70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 029/103] fix: opening a serialization writer that is open must
 keep what was written

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 0b13798..7326c71 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From 9474c5c47a55b3f88d50da35610d27a3ce964e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 030/103] fix: sorting uncompressed streams did not compile

---
 tpie/sort.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/sort.h b/tpie/sort.h
index bdeb6d9..01e8e3e 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -140,7 +140,7 @@ void generic_sort(Stream & instream, Stream & outstream, Compare comp,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  Compare comp, progress_indicator_base & indicator) {
-	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, &comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -150,7 +150,7 @@ template<typename T>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  tpie::progress_indicator_base* indicator=NULL) {
 	std::less<T> comp;
-	sort(instream, outstream, comp, indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -178,7 +178,7 @@ void sort(file_stream<T> &instream, file_stream<T> &outstream,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, Compare comp,
 		  progress_indicator_base & indicator) {
-	sort(instream, instream, comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4e1cf33921b5ebdf201d3449d46e26c5c86b25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 031/103] fix: ami::sort with a comparison object and an output
 stream did not compile

---
 tpie/sort.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tpie/sort.h b/tpie/sort.h
index 01e8e3e..3a731ca 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -153,6 +153,16 @@ void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, indicator);
 }
 
+///////////////////////////////////////////////////////////////////////////////
+/// \brief Sort elements of a stream using the given STL-style comparator
+/// object.
+///////////////////////////////////////////////////////////////////////////////
+template<typename T, typename Compare>
+void sort(file_stream<T> &instream, file_stream<T> &outstream,
+		  Compare comp, progress_indicator_base & indicator) {
+	bits::generic_sort<file_stream<T>, T>(instream, outstream, comp, &indicator);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief Sort elements of a stream using the less-than operator.
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e15335945074b47332b5d83462e8e1b368f495ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 032/103] fix: a merge sorter dropped or evacuated with items
 left must free them

---
 tpie/pipelining/merge_sorter.cpp |  2 ++
 tpie/pipelining/merge_sorter.h   | 15 ++++++++++++---
 tpie/pipelining/merger.h         | 19 +++++++++++++++----
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 89245a5..7b1eead 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -205,6 +205,8 @@ merge_sorter_base::merge_sorter_base(
 	, m_state(stNotStarted)
 	, p()
 	, m_parametersSet(false)
+	, m_currentRunItemCount(0)
+	, m_itemsPulled(0)
 	, m_maxItems(std::numeric_limits<stream_size_type>::max())
 	, m_evacuated(false)
 	, m_finalMergeInitialized(false)
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 45a58e1..03b83d3 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -364,6 +364,7 @@ protected:
 
 	// When doing internal reporting: the number of items already reported
 	// Used in comparison with m_currentRunItemCount
+	// While writing a run: the number of items handed over by the store
 	memory_size_type m_itemsPulled;
 
 	stream_size_type m_itemCount;
@@ -414,6 +415,12 @@ public:
 		, m_currentRunItems(m_bucket)
 		, pred(pred)
 		{}
+
+	~merge_sorter() {
+		// Items that were never reported may be owned by the store.
+		while (m_itemsPulled < m_currentRunItemCount)
+			m_store.store_to_element(std::move(m_currentRunItems[m_itemsPulled++]));
+	}
 	
 
 public:
@@ -566,9 +573,11 @@ private:
 			log_pipe_debug() << "..." << std::endl;
 		file_stream<element_type> fs;
 		open_run_file_write(fs, 0, m_finishedRuns);
-		for (memory_size_type i = 0; i < m_currentRunItemCount; ++i)
-			fs.write(m_store.store_to_element(std::move(m_currentRunItems[i])));
-		m_currentRunItemCount = 0;
+		while (m_itemsPulled < m_currentRunItemCount) {
+			store_type & item = m_currentRunItems[m_itemsPulled++];
+			fs.write(m_store.store_to_element(std::move(item)));
+		}
+		m_currentRunItemCount = m_itemsPulled = 0;
 		++m_finishedRuns;
 	}
 
diff --git a/tpie/pipelining/merger.h b/tpie/pipelining/merger.h
index 0b3e77d..433f6a7 100644
--- a/tpie/pipelining/merger.h
+++ b/tpie/pipelining/merger.h
@@ -43,17 +43,23 @@ public:
 		, m_store(store) {
 	}
 
+	~merger() {
+		reset();
+	}
+
 	bool can_pull() {
 		return !pq.empty();
 	}
 
 	store_type pull() {
 		tp_assert(can_pull(), "pull() while !can_pull()");
-		store_type el = std::move(pq.top().first);
 		size_t i = pq.top().second;
-		if (in[i].can_read() && itemsRead[i] < runLength) {
-			pq.pop_and_push(
-				std::make_pair(m_store.element_to_store(in[i].read()), i));
+		bool more = in[i].can_read() && itemsRead[i] < runLength;
+		// This may throw, so do it before touching the top.
+		store_type next = more ? m_store.element_to_store(in[i].read()) : store_type();
+		store_type el = std::move(pq.top().first);
+		if (more) {
+			pq.pop_and_push(std::make_pair(std::move(next), i));
 			++itemsRead[i];
 		} else {
 			pq.pop();
@@ -65,6 +71,11 @@ public:
 	}
 
 	void reset() {
+		// Items that were never pulled may be owned by the store.
+		while (!pq.empty()) {
+			m_store.store_to_element(std::move(pq.top().first));
+			pq.pop();
+		}
 		in.resize(0);
 		pq.resize(0);
 		itemsRead.resize(0);
-- 
2.43.0


From 84688cf7bb6b4af048ba100d2ab2b569e1f0e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 033/103] fix: a serialization sorter must remove its temporary
 directory

---
 tpie/serialization_sorter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 13fe8e0..98d5d26 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -303,6 +303,10 @@ public:
 
 	~file_handler() {
 		reset();
+		if (!m_tempDir.empty()) {
+			std::error_code ec;
+			std::filesystem::remove(m_tempDir, ec);
+		}
 	}
 
 	void set_temp_dir(const std::string & tempDir) {
-- 
2.43.0


From 0fc7e9b4fddaa9c4c35e8c44401f7f36da3eaee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 034/103] fix: forming sort runs opens three files, not one

---
 tpie/pipelining/merge_sorter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 03b83d3..1424b72 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -143,8 +143,8 @@ public:
 		memory_size_type element_file_stream_memory_usage);
 
 	static const memory_size_type defaultFiles = 253; // Default number of files available, when not using set_available_files
-	static const memory_size_type minimumFilesPhase1 = 1;
-	static const memory_size_type maximumFilesPhase1 = 1;
+	static const memory_size_type minimumFilesPhase1 = 3; // A run file and the run positions
+	static const memory_size_type maximumFilesPhase1 = 3;
 	static const memory_size_type minimumFilesPhase2 = 5;
 	static const memory_size_type maximumFilesPhase2 = std::numeric_limits<memory_size_type>::max();
 	static const memory_size_type minimumFilesPhase3 = 5;
-- 
2.43.0


From 2e1e26662e43cc463f5f55362887b45fc2cf23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 035/103] fix: subtracting from a packed_array iterator moved
 it forwards

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index f7551f9..38226b9 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() += (forward?-n:n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From 528b5308d4b73b9f6d4ee9628c42c6579b50ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 036/103] fix: no job worker was started when the number of
 processors is unknown

---
 tpie/job.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index 3ee1ed6..f4c2136 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -113,6 +113,7 @@ private:
 
 memory_size_type default_worker_count() {
 	memory_size_type workers = std::thread::hardware_concurrency();
+	if (workers == 0) workers = 1; // not computable
 	if (workers > 3) --workers; // spare a CPU for the UI
 	return workers;
 }
-- 
2.43.0


From 5ab6a06b35d49403c9b6e4be00bdcfaaa43bea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 037/103] fix: user data must not be accessed while the
 compressor thread uses the file

---
 tpie/compressed/buffer.h        | 10 ++++++++++
 tpie/compressed/stream_base.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 6f5364b..cb03924 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -345,6 +345,16 @@ public:
 		return m_buffers.empty();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Whether the compressor thread still holds one of our buffers,
+	/// given the buffer (or none) currently held by the stream.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_pending_request(const buffer_t & current) const {
+		for (buffermap_t::const_iterator i = m_buffers.begin(); i != m_buffers.end(); ++i)
+			if (i->second.use_count() > (i->second == current ? 2 : 1)) return true;
+		return false;
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f5b98fe..2a1b698 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -370,6 +370,14 @@ public:
 		}
 	}
 
+	/// Wait until the compressor thread no longer accesses the file,
+	/// keeping the current buffer.
+	void wait_for_requests() {
+		compressor_thread_lock l(compressor());
+		while (m_buffers.has_pending_request(m_buffer))
+			compressor().wait_for_request_done(l);
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -812,11 +820,13 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	m_p->wait_for_requests();
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	m_p->wait_for_requests();
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 8e0c2eac4eb169469449018253e0333cb9216d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 038/103] fix: a block being read must not be used before the
 read request is done

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 2a1b698..6b1706f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -636,7 +636,8 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// The response may also be marked as done by an earlier write request.
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 	}
-- 
2.43.0


From e3fe319a3b2c79b962ca839668fd3266a6f3c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 039/103] fix: truncating a temporary stream recorded items,
 not bytes, and raced with the compressor thread

---
 tpie/compressed/stream_base.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 6b1706f..3417c4f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -425,6 +425,16 @@ public:
 		uncache_read_writes();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Record the size in bytes of the temporary file after truncating.
+	/// The compressor thread may be recording the size of a write, too.
+	///////////////////////////////////////////////////////////////////////////
+	void update_temp_file_size() {
+		if (m_tempFile == nullptr) return;
+		compressor_thread_lock l(compressor());
+		m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	void truncate_uncompressed(stream_size_type offset) {
 		tp_assert(!use_compression(), "truncate_uncompressed called on compressed stream");
 	
@@ -1133,7 +1143,7 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 	else
 		throw stream_exception("Arbitrary truncate is not supported");
 	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
+	m_p->update_temp_file_size();
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1148,7 +1158,7 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 	else
 		m_p->truncate_compressed(pos);
 	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
+	m_p->update_temp_file_size();
 }
 
 stream_position compressed_stream_base::get_position() {
-- 
2.43.0


From 086625b4bf68ead92aedf7fc678049335cea85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 040/103] fix: parallel: an exception before every worker has
 started must not deadlock

When begin() of a stage throws, or a thread cannot be created, some workers
are not running yet: ~before joined its worker with the lock the worker needs,
stop_workers() returned before telling the workers to stop, and a worker that
first ran after the others were stopped waited for ever.
---
 tpie/pipelining/parallel/base.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..b74dac1 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -590,11 +590,14 @@ protected:
 	}
 
 	~before() {
-		state_base::lock_t lock(st.mutex);
+		{
+			state_base::lock_t lock(st.mutex);
 
-		auto s = st.get_state(parId);
-		tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+			auto s = st.get_state(parId);
+			tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+		}
 
+		// Without the lock, since the worker may not have acquired it yet
 		if (m_worker.joinable())
 			m_worker.join();
 	}
@@ -665,6 +668,9 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
+		// The workers were stopped before this one got to run.
+		if (st.get_state(parId) == DONE) return;
+
 		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
 		m_inputBuffers[parId] = m_buffer.get();
 
@@ -928,8 +934,6 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
-		if (st->runningWorkers == 0) return;
-
 		bool done = false;
 		while (!done) {
 			// Force maintainOrder == false to avoid deadlock in case processor p
-- 
2.43.0


From bb8ab65c6f7055bc32ae29a2e74c0df693a337bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 041/103] fix: parallel workers must not step the phase's
 progress indicator concurrently

The runtime replaced the null progress indicators of the workers' nodes by the
one of the phase, which all the workers then stepped without synchronization,
and the producer read the workers' counts while they were being changed.
---
 tpie/pipelining/node.cpp        |  4 ++++
 tpie/pipelining/node.h          | 17 +++++++++++++++++
 tpie/pipelining/parallel/base.h | 32 +++++++++++++++++++-------------
 tpie/pipelining/runtime.cpp     |  3 ++-
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..eb71b4b 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -71,6 +71,7 @@ node::node()
 	: token(this)
 	, m_stepsLeft(0)
 	, m_pi(0)
+	, m_ownPi(false)
 	, m_state(STATE_FRESH)
 	, m_plotOptions()
 {
@@ -82,6 +83,7 @@ node::node(node && other)
 	, m_buckets(std::move(other.m_buckets))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
+	, m_ownPi(other.m_ownPi)
 	, m_state(std::move(other.m_state))
 	, m_plotOptions(std::move(other.m_plotOptions))
 {
@@ -96,6 +98,7 @@ node & node::operator=(node && other) {
 	m_buckets = std::move(other.m_buckets);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
+	m_ownPi = other.m_ownPi;
 	m_state = std::move(other.m_state);
 	m_plotOptions = std::move(other.m_plotOptions);
 	return *this;
@@ -106,6 +109,7 @@ node::node(const node_token & token)
 	, m_parameters()
 	, m_stepsLeft(0)
 	, m_pi(0)
+	, m_ownPi(false)
 	, m_state(STATE_FRESH)
 	, m_plotOptions()
 {
diff --git a/tpie/pipelining/node.h b/tpie/pipelining/node.h
index ec1db43..9dd5c02 100644
--- a/tpie/pipelining/node.h
+++ b/tpie/pipelining/node.h
@@ -408,6 +408,22 @@ public:
 		m_pi = pi;
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally. Set the progress indicator to use instead of
+	/// the one of the phase.
+	///////////////////////////////////////////////////////////////////////////
+	void set_own_progress_indicator(progress_indicator_base * pi) {
+		m_pi = pi;
+		m_ownPi = true;
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Used internally. Whether set_own_progress_indicator was called.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_own_progress_indicator() const {
+		return m_ownPi;
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Used internally. Get the progress indicator used.
 	///////////////////////////////////////////////////////////////////////////
@@ -807,6 +823,7 @@ private:
 	datastructuremap_t m_datastructures;
 	stream_size_type m_stepsLeft;
 	progress_indicator_base * m_pi;
+	bool m_ownPi;
 	STATE m_state;
 	resource_type m_resourceBeingAssigned = NO_RESOURCE;
 	std::unique_ptr<progress_indicator_base> m_piProxy;
diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index b74dac1..87ba419 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -76,7 +76,7 @@ protected:
 		}
 
 		virtual void init_node(node & r) override {
-			r.set_progress_indicator(t->m_progressIndicators.get(index));
+			r.set_own_progress_indicator(t->m_progressIndicators.get(index));
 		}
 
 		size_t index;
@@ -91,12 +91,12 @@ public:
 		return *m_dests[idx];
 	}
 
-	stream_size_type sum_steps() {
-		stream_size_type res = 0;
-		for (size_t i = 0; i < m_progressIndicators.size(); ++i) {
-			res += m_progressIndicators.get(i)->get_current();
-		}
-		return res;
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Number of steps a worker has reported.
+	/// The worker must not be running its part of the pipeline meanwhile.
+	///////////////////////////////////////////////////////////////////////////
+	stream_size_type get_steps(size_t idx) {
+		return m_progressIndicators.get(idx)->get_current();
 	}
 
 	virtual ~threads() {}
@@ -797,7 +797,7 @@ private:
 	size_t readyIdx;
 	std::shared_ptr<consumer<T2> > cons;
 	internal_queue<memory_size_type> m_outputOrder;
-	stream_size_type m_steps;
+	array<stream_size_type> m_steps;
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Check if a worker is waiting for the main thread.
@@ -901,10 +901,16 @@ private:
 		// In effect, every time step() is called once in a single worker,
 		// we process this as if all workers called step().
 
-		stream_size_type steps = st->pipes->sum_steps();
-		if (steps != m_steps) {
-			this->get_progress_indicator()->step(st->opts.numJobs*(steps - m_steps));
-			m_steps = steps;
+		// A worker that is processing its input calls step() without holding
+		// the lock; its steps are propagated when it has finished.
+
+		for (size_t i = 0; i < st->opts.numJobs; ++i) {
+			if (st->get_state(i) == PROCESSING) continue;
+			stream_size_type steps = st->pipes->get_steps(i);
+			if (steps != m_steps[i]) {
+				this->get_progress_indicator()->step(st->opts.numJobs*(steps - m_steps[i]));
+				m_steps[i] = steps;
+			}
 		}
 	}
 
@@ -998,7 +1004,7 @@ public:
 		: st(st)
 		, written(0)
 		, cons(new consumer_t(std::move(cons)))
-		, m_steps(0)
+		, m_steps(st->opts.numJobs, 0)
 	{
 		for (size_t i = 0; i < st->opts.numJobs; ++i) {
 			this->add_push_destination(st->input(i));
diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..59411c6 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1707,7 +1707,8 @@ void runtime::propagate_all(const graph<node *> & itemFlow) {
 void runtime::set_progress_indicators(const std::vector<node *> & phase,
 									  progress_indicator_base & pi) {
 	for (size_t i = 0; i < phase.size(); ++i)
-		phase[i]->set_progress_indicator(&pi);
+		if (!phase[i]->has_own_progress_indicator())
+			phase[i]->set_progress_indicator(&pi);
 }
 
 void runtime::go_initiators(const std::vector<node *> & phase) {
-- 
2.43.0


From 521195f5dc36443bfc7ae2ef1cf9bb4b4fe03fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 042/103] fix: data structures registered in a constructor must
 survive moving the node

The documentation allows registering them there, but moving a node dropped
them, and get_datastructure_memory looked in a node map that had been
merged into another one.
---
 tpie/pipelining/node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index eb71b4b..bca8d10 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -81,6 +81,7 @@ node::node(node && other)
 	: token(other.token, this)
 	, m_parameters(std::move(other.m_parameters))
 	, m_buckets(std::move(other.m_buckets))
+	, m_datastructures(std::move(other.m_datastructures))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
 	, m_ownPi(other.m_ownPi)
@@ -96,6 +97,7 @@ node & node::operator=(node && other) {
 	token.assign(other.token, this);
 	m_parameters = std::move(other.m_parameters);
 	m_buckets = std::move(other.m_buckets);
+	m_datastructures = std::move(other.m_datastructures);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
 	m_ownPi = other.m_ownPi;
@@ -326,7 +328,7 @@ void node::set_datastructure_memory_limits(const std::string & name, memory_size
 }
 
 memory_size_type node::get_datastructure_memory(const std::string & name) {
-	const bits::node_map::datastructuremap_t & structures = get_node_map()->get_datastructures();
+	const bits::node_map::datastructuremap_t & structures = get_node_map()->find_authority()->get_datastructures();
 	bits::node_map::datastructuremap_t::const_iterator i = structures.find(name);
 
 	if(i == structures.end())
-- 
2.43.0


From 4ea0334fc2e9a2ccbb27cef6ecea895e01a180f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 043/103] fix: memory and file assignment stopped before all
 nodes had their maximum

The search for the common factor gave up when doubling it changed nothing,
which also happens while a node with a small fraction is still below its
minimum; the remaining budget was then not assigned at all. With very
different fractions the binary search did not terminate.
---
 tpie/pipelining/runtime.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 59411c6..81cf28d 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -743,6 +743,14 @@ public:
 		return clamp(minimum_usage(i), maximum_usage(i), factor * fraction(i));
 	};
 
+	// Whether no node gets more if the factor is increased.
+	bool is_saturated(double factor) const {
+		for (size_t i = 0; i < m_nodes.size(); ++i)
+			if (fraction(i) > 0.0 && get_assigned_usage(i, factor) < maximum_usage(i))
+				return false;
+		return true;
+	};
+
 	static memory_size_type clamp(memory_size_type lo, memory_size_type hi,
 								  double v) {
 		if (v < lo) return lo;
@@ -826,6 +834,7 @@ public:
 	memory_size_type sum_minimum_memory(size_t phase) const; // sum the minimum memory for datastructures used in the phase
 	double sum_fraction(size_t i) const; // sum the fractions for datastructures used in phase i
 	memory_size_type sum_assigned_memory(double factor, size_t phase) const; // sum the assigned memory for datastructures used in the phase
+	bool is_saturated(double factor, size_t phase) const; // whether no datastructure used in the phase gets more if the factor is increased
 	void minimize_factor(double factor, size_t phase); // the factor for the datastructure in the phase is set to be no higher than the given factor
 	memory_size_type sum_assigned_memory(size_t phase) const; // sum the assigned memory for datastructures used in the phase using the factors given to the minimize_factor method
 	void assign_memory();
@@ -1088,6 +1097,18 @@ memory_size_type datastructure_runtime::sum_assigned_memory(double factor, size_
 	return r;
 }
 
+bool datastructure_runtime::is_saturated(double factor, size_t phase) const {
+	for(std::map<std::string, datastructure_info_t>::const_iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
+		const datastructure_info_t & agg_info = i->second;
+		if(agg_info.left_most_phase <= phase && phase <= agg_info.right_most_phase
+		   && agg_info.priority > 0.0
+		   && clamp(agg_info.min, agg_info.max, agg_info.priority * factor) < agg_info.max)
+			return false;
+	}
+
+	return true;
+}
+
 void datastructure_runtime::minimize_factor(double factor, size_t phase) {
 	for(std::map<std::string, datastructure_info_t>::iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
 		datastructure_info_t & agg_info = i->second;
@@ -1778,20 +1799,19 @@ double runtime::get_files_factor(memory_size_type files, const file_runtime & fr
 	double c_lo = 0.0;
 	double c_hi = 1.0;
 	// Exponential search
-	memory_size_type oldFilesAssigned = 0;
 	while (true) {
 		double factor = files * c_hi / fraction_sum;
 		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
-		if (filesAssigned < files && filesAssigned != oldFilesAssigned)
+		if (filesAssigned < files && !frt.is_saturated(factor))
 			c_hi *= 2;
 		else
 			break;
-		oldFilesAssigned = filesAssigned;
 	}
 
 	// Binary search
 	while (c_hi - c_lo > 1e-6) {
 		double c = c_lo + (c_hi-c_lo)/2;
+		if (c <= c_lo || c >= c_hi) break; // no double is between them
 		double factor = files * c / fraction_sum;
 		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
 
@@ -1864,20 +1884,20 @@ double runtime::get_memory_factor(memory_size_type memory, memory_size_type phas
 	double c_lo = 0.0;
 	double c_hi = 1.0;
 	// Exponential search
-	memory_size_type oldMemoryAssigned = 0;
 	while (true) {
 		double factor = memory * c_hi / fraction_sum;
 		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
-		if (memoryAssigned < memory && memoryAssigned != oldMemoryAssigned)
+		if (memoryAssigned < memory
+			&& !(mrt.is_saturated(factor) && (datastructures_locked || drt.is_saturated(factor, phase))))
 			c_hi *= 2;
 		else
 			break;
-		oldMemoryAssigned = memoryAssigned;
 	}
 
 	// Binary search
 	while (c_hi - c_lo > 1e-6) {
 		double c = c_lo + (c_hi-c_lo)/2;
+		if (c <= c_lo || c >= c_hi) break; // no double is between them
 		double factor = memory * c / fraction_sum;
 		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
 
-- 
2.43.0


From 06bf5baffd4f116be28029e50316d324eb563c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 044/103] fix: two equal memory sharing dependencies between
 phases can both be satisfied

---
 tpie/pipelining/runtime.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 81cf28d..0d90503 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1513,8 +1513,11 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 
 			// Check if we already have a green edge from fromPhase or to toPhase
 			// If so one of edges can't be satisfied, but all green edges must be satisfied
-			if (greenEdges.find(fromPhase) != greenEdges.end() ||
-				revGreenEdges.find(toPhase) != revGreenEdges.end()) {
+			// (unless it is the same edge).
+			auto out = greenEdges.find(fromPhase);
+			auto in = revGreenEdges.find(toPhase);
+			if ((out != greenEdges.end() && out->second != toPhase) ||
+				(in != revGreenEdges.end() && in->second != fromPhase)) {
 				throw tpie::exception("get_phases: can't satisfy all green edges");
 			}
 			greenEdges[fromPhase] = toPhase;
-- 
2.43.0


From 2508b6a18683a6b3403c55537032cce7b0d98d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 045/103] fix: reject cyclic dependencies between phases that
 share memory

---
 tpie/pipelining/runtime.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 0d90503..dcd969c 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1525,6 +1525,15 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 		}
 	}
 
+	// A cycle in which all phases are connected by green edges is contracted below,
+	// so check for cycles before that.
+	graph<size_t> dependencyGraph;
+	for (const auto * edges : {&blackEdges, &redEdges})
+		for (const auto & p : *edges) dependencyGraph.add_edge(p.first, p.second);
+	for (const auto & p : greenEdges) dependencyGraph.add_edge(p.first, p.second);
+	if (!dependencyGraph.check_acyclical())
+		throw tpie::exception("get_phases: phases depend on each other in a cycle");
+
 	disjoint_sets<size_t> contractedNodes(phaseGraph.size());
 	for (size_t i : phaseGraph.get_node_set()) {
 		contractedNodes.make_set(i);
-- 
2.43.0


From b6783fd3e588f3ca6d014c08e46e2204d87e0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 046/103] fix: a file descriptor is gone even if closing it
 fails

---
 tpie/file_accessor/posix.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index feee7b5..945e216 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -145,9 +145,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// Even if close fails, the file descriptor is gone.
+	const int fd = m_fd;
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (::close(fd) == -1) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
-- 
2.43.0


From f961f0fd459dbdbae801d4e2b182b4a7209eba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 047/103] fix: a stream file that fails to open or to close
 must not stay open

---
 tpie/file_accessor/posix.h                  |  8 +++-
 tpie/file_accessor/stream_accessor_base.h   | 14 +++++-
 tpie/file_accessor/stream_accessor_base.inl | 49 +++++++++++++++------
 3 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/tpie/file_accessor/posix.h b/tpie/file_accessor/posix.h
index 0376178..828d0ce 100644
--- a/tpie/file_accessor/posix.h
+++ b/tpie/file_accessor/posix.h
@@ -39,7 +39,13 @@ private:
 
 public:
 	inline posix();
-	inline ~posix() {close_i();}
+	inline ~posix() {
+		try {
+			close_i();
+		} catch (const std::exception &) {
+			// Call close_i to know.
+		}
+	}
 
 	inline void open_ro(const std::string & path);
 	inline void open_wo(const std::string & path);
diff --git a/tpie/file_accessor/stream_accessor_base.h b/tpie/file_accessor/stream_accessor_base.h
index d1e8e24..121b8d9 100644
--- a/tpie/file_accessor/stream_accessor_base.h
+++ b/tpie/file_accessor/stream_accessor_base.h
@@ -115,7 +115,13 @@ public:
 	{
 	}
 
-	virtual ~stream_accessor_base() {close();}
+	virtual ~stream_accessor_base() {
+		try {
+			close();
+		} catch (const std::exception &) {
+			// The file is not marked as properly closed.
+		}
+	}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Open file for reading and/or writing.
@@ -131,6 +137,12 @@ public:
 
 	inline void close();
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without marking it as properly closed,
+	/// so that it cannot be opened again. Does not throw.
+	///////////////////////////////////////////////////////////////////////////
+	inline void discard();
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Read the given number of items from the given block into the
 	/// given buffer.
diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..b95fdab 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,22 +134,27 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
-	if (write && !read) {
-		m_fileAccessor.open_wo(path);
-		write_header(false);
-		write_user_data(0, 0);
-	} else if (!write && read) {
-		m_fileAccessor.open_ro(path);
-		read_header();
-	} else {
-		if (!m_fileAccessor.try_open_rw(path)) {
-			m_fileAccessor.open_rw_new(path);
+	try {
+		if (write && !read) {
+			m_fileAccessor.open_wo(path);
 			write_header(false);
 			write_user_data(0, 0);
-		} else {
+		} else if (!write && read) {
+			m_fileAccessor.open_ro(path);
 			read_header();
-			write_header(false);
+		} else {
+			if (!m_fileAccessor.try_open_rw(path)) {
+				m_fileAccessor.open_rw_new(path);
+				write_header(false);
+				write_user_data(0, 0);
+			} else {
+				read_header();
+				write_header(false);
+			}
 		}
+	} catch (...) {
+		discard();
+		throw;
 	}
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
@@ -162,10 +167,26 @@ template <typename file_accessor_t>
 void stream_accessor_base<file_accessor_t>::close() {
 	if (!m_open)
 		return;
-	if (m_write)
-		write_header(true);
+	// Whatever happens, the file is closed afterwards.
+	try {
+		if (m_write)
+			write_header(true);
+	} catch (...) {
+		discard();
+		throw;
+	}
+	m_open = false;
 	m_fileAccessor.close_i();
+}
+
+template <typename file_accessor_t>
+void stream_accessor_base<file_accessor_t>::discard() {
 	m_open = false;
+	try {
+		m_fileAccessor.close_i();
+	} catch (const io_exception &) {
+		// The reason for discarding is reported, and the file is not marked as properly closed.
+	}
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From 98ed03ff3620a185f22ebeabc8a9bd9f2c6f252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 048/103] fix: reading beyond the end of a stream file must be
 an error

---
 tpie/compressed/thread.cpp                | 2 +-
 tpie/file_accessor/byte_stream_accessor.h | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 9770cd4..aa65c63 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -159,7 +159,7 @@ private:
 			if (blockSize > rr.buffer()->capacity()) {
 				throw stream_exception("Internal error; blockSize > buffer capacity");
 			}
-			rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
+			checked_read(rr, readOffset, rr.buffer()->get(), blockSize);
 			rr.buffer()->set_size(blockSize);
 			compressor_thread_lock::lock_t lock(mutex());
 			// Notify that reading has completed.
diff --git a/tpie/file_accessor/byte_stream_accessor.h b/tpie/file_accessor/byte_stream_accessor.h
index 089c494..b0dd1ab 100644
--- a/tpie/file_accessor/byte_stream_accessor.h
+++ b/tpie/file_accessor/byte_stream_accessor.h
@@ -85,7 +85,9 @@ public:
 					   this->m_fileAccessor.file_size_i())
 			- this->header_size();
 
-		if (byteOffset + size > sz)
+		if (byteOffset >= sz)
+			return 0;
+		if (size > sz - byteOffset)
 			size = sz - byteOffset;
 
 		stream_size_type position = this->header_size() + byteOffset;
-- 
2.43.0


From 01b78e2df7aac08843d014cd7e17a73c80a45277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 049/103] fix: a damaged snappy block must not be used

---
 tpie/compressed/scheme_snappy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/scheme_snappy.cpp b/tpie/compressed/scheme_snappy.cpp
index c1b702d..82d6715 100644
--- a/tpie/compressed/scheme_snappy.cpp
+++ b/tpie/compressed/scheme_snappy.cpp
@@ -53,7 +53,8 @@ virtual size_t uncompressed_length(const char * src, size_t srcSize) const overr
 
 virtual void uncompress(char * dest, const char * src, size_t srcSize) const override {
 	tpie::stat_timer t(6); // Time uncompressing
-	snappy::RawUncompress(src, srcSize, dest);
+	if (!snappy::RawUncompress(src, srcSize, dest))
+		throw tpie::stream_exception("snappy::RawUncompress failed");
 }
 
 };
-- 
2.43.0


From 3924b9746e6a874473a7f8c0d67977455600d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:56 +0000
Subject: [PATCH 050/103] fix: an I/O error in the compressor thread must be
 reported by the stream

---
 tpie/compressed/request.cpp     | 13 +++++
 tpie/compressed/request.h       | 56 ++++++++++++++++++++
 tpie/compressed/stream.h        |  3 ++
 tpie/compressed/stream_base.cpp | 92 ++++++++++++++++++++++++++++-----
 tpie/compressed/thread.cpp      | 15 +++++-
 5 files changed, 165 insertions(+), 14 deletions(-)

diff --git a/tpie/compressed/request.cpp b/tpie/compressed/request.cpp
index 735bb23..e248b58 100644
--- a/tpie/compressed/request.cpp
+++ b/tpie/compressed/request.cpp
@@ -19,11 +19,24 @@
 
 #include <tpie/compressed/request.h>
 #include <tpie/compressed/thread.h>
+#include <tpie/compressed/buffer.h>
 
 namespace tpie {
 
 void compressor_response::wait(compressor_thread_lock & lock) {
+	check_writes();
 	m_changed.wait(lock.get_lock());
+	check_writes();
+}
+
+void read_request::set_error(std::exception_ptr e) {
+	m_buffer->set_state(compressor_buffer_state::dirty);
+	m_response->set_read_error(e);
+}
+
+void write_request::set_error(std::exception_ptr e) {
+	m_buffer->set_state(compressor_buffer_state::dirty);
+	m_response->set_write_error(e);
 }
 
 } // namespace tpie
diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 077bd60..1d092b9 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -27,6 +27,7 @@
 #include <memory>
 #include <thread>
 #include <condition_variable>
+#include <exception>
 #include <tpie/tpie_assert.h>
 #include <tpie/tempname.h>
 #include <tpie/file_accessor/file_accessor.h>
@@ -58,13 +59,57 @@ public:
 		, m_endOfStream(false)
 		, m_nextReadOffset(0)
 		, m_nextBlockSize(0)
+		, m_writeErrorReported(false)
 	{
 	}
 
 	// any, stream
 	// Waits on the condition variable m_changed.
+	// Throws if a write request has failed.
 	void wait(compressor_thread_lock & lock);
 
+	// read, stream
+	// Throws if the last read request has failed.
+	void check_read() {
+		if (!m_readError) return;
+		std::exception_ptr e;
+		std::swap(e, m_readError);
+		std::rethrow_exception(e);
+	}
+
+	// write, stream
+	// Throws if any write request has failed.
+	void check_writes() {
+		if (!m_writeError) return;
+		m_writeErrorReported = true;
+		std::rethrow_exception(m_writeError);
+	}
+
+	// write, stream
+	bool write_error_reported() {
+		return m_writeErrorReported;
+	}
+
+	// any, stream
+	void clear_errors() {
+		m_readError = m_writeError = nullptr;
+		m_writeErrorReported = false;
+	}
+
+	// read, thread -- must have lock!
+	void set_read_error(std::exception_ptr e) {
+		m_readError = e;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
+	// write, thread -- must have lock!
+	void set_write_error(std::exception_ptr e) {
+		if (!m_writeError) m_writeError = e;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
 	// any, stream
 	void initiate_request() {
 		m_done = m_endOfStream = false;
@@ -168,6 +213,11 @@ private:
 	bool m_endOfStream;
 	stream_size_type m_nextReadOffset;
 	memory_size_type m_nextBlockSize;
+
+	// The exceptions that made requests fail
+	std::exception_ptr m_readError;
+	std::exception_ptr m_writeError;
+	bool m_writeErrorReported;
 };
 
 #ifdef __GNUC__
@@ -237,6 +287,9 @@ public:
 		m_response->set_next_block_offset(offset);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr e);
+
 private:
 	buffer_t m_buffer;
 	file_accessor_t * m_fileAccessor;
@@ -297,6 +350,9 @@ public:
 		m_response->set_block_info(m_blockNumber, readOffset, blockSize);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr e);
+
 	// must have lock!
 	void update_recorded_size() {
 		m_response->set_done();
diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index 3148e1a..69efb41 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -114,6 +114,9 @@ protected:
 	
 	void write_unlikely(const char * item);
 
+	/** get_position of a compressed stream. */
+	stream_position get_position_inner();
+
 	static memory_size_type memory_usage(double blockFactor=1.0) noexcept;
 	
 public:
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 3417c4f..29e383e 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -84,15 +84,14 @@ typedef std::shared_ptr<compressor_buffer> buffer_t;
 ///////////////////////////////////////////////////////////////////////////////
 class close_on_fail_guard {
 public:
-	close_on_fail_guard(compressed_stream_base * s)
+	close_on_fail_guard(compressed_stream_base * s, bool * failed = nullptr)
 		: m_committed(false)
 		, m_stream(s)
+		, m_failed(failed)
 	{
 	}
 
-	~close_on_fail_guard() {
-		if (!m_committed) m_stream->close();
-	}
+	~close_on_fail_guard();
 
 	void commit() {
 		m_committed = true;
@@ -101,6 +100,8 @@ public:
 private:
 	bool m_committed;
 	compressed_stream_base * m_stream;
+	/** If not null, set this if the method exits by throwing an exception. */
+	bool * m_failed;
 };
 
 
@@ -175,6 +176,10 @@ public:
 
 	compressed_stream_base * m_o;
 	
+	/** Whether the contents of the file are not what they should be,
+	 * so that the file must not be marked as properly closed. */
+	bool m_failed;
+
 	compressed_stream_base_p(memory_size_type itemSize, double blockFactor, compressed_stream_base * outer)
 		: m_bufferDirty(false)
 		, m_blockItems(block_size(blockFactor) / itemSize)
@@ -196,6 +201,7 @@ public:
 		, m_nextPosition(/* not a position */)
 		, m_nextReadOffset(0)
 		, m_o(outer)
+		, m_failed(false)
 		{}
 
 	void open_inner(const std::string & path,
@@ -221,6 +227,8 @@ public:
 		m_lastBlockReadOffset = m_byteStreamAccessor.get_last_block_read_offset();
 		m_currentFileSize = m_byteStreamAccessor.file_size();
 		m_response.clear_block_info();
+		m_response.clear_errors();
+		m_failed = false;
 		
 		m_o->seek(0);
 	}
@@ -246,6 +254,7 @@ public:
 	/// Does not get a new block buffer.
 	///////////////////////////////////////////////////////////////////////////
 	void flush_block(compressor_thread_lock & lock) {
+		m_response.check_writes();
 		uncache_read_writes();
 		stream_size_type blockNumber = buffer_block_number();
 		stream_size_type writeOffset;
@@ -362,6 +371,11 @@ public:
 	}
 
 	void finish_requests(compressor_thread_lock & l) {
+		release_buffers(l);
+		m_response.check_writes();
+	}
+
+	void release_buffers(compressor_thread_lock & l) {
 		tp_assert(!(m_buffer.get() != 0), "finish_requests called when own buffer is still held");
 		m_buffers.clean();
 		while (!m_buffers.empty()) {
@@ -376,6 +390,7 @@ public:
 		compressor_thread_lock l(compressor());
 		while (m_buffers.has_pending_request(m_buffer))
 			compressor().wait_for_request_done(l);
+		m_response.check_writes();
 	}
 
 	compressor_thread & compressor() { return the_compressor_thread(); }
@@ -409,6 +424,7 @@ public:
 		// No need to flush block
 		m_buffer.reset();
 		m_updateReadOffsetFromWrite = false;
+		close_on_fail_guard closeOnFail(m_o, &m_failed);
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
 		// Only now: a pending write request records its block info when done.
@@ -423,6 +439,7 @@ public:
 		m_o->m_nextItem = m_o->m_bufferBegin;
 		m_o->m_seekState = compressed_stream_base::seek_state::none;
 		uncache_read_writes();
+		closeOnFail.commit();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -457,6 +474,7 @@ public:
 		} else {
 			// We need to do a truncate on the file accessor.
 			// Get rid of the current block first.
+			close_on_fail_guard closeOnFail(m_o, &m_failed);
 			compressor_thread_lock l(compressor());
 			if (offset < buffer_block_number() * m_blockItems) {
 				// No need to flush current block, since we are truncating it away.
@@ -473,6 +491,7 @@ public:
 			m_byteStreamAccessor.truncate(offset);
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
+			closeOnFail.commit();
 		}
 		m_o->seek(std::min(currentOffset, offset));
 	}
@@ -536,6 +555,7 @@ public:
 			while (!m_response.done()) {
 				m_response.wait(lock);
 			}
+			m_response.check_writes();
 			if (m_response.has_block_info(m_lastWriteBlockNumber)) {
 				m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
 				m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
@@ -637,6 +657,7 @@ public:
 	void read_block(compressor_thread_lock & lock,
 											stream_size_type readOffset,
 											read_direction::type readDirection) {
+		m_response.check_writes();
 		compressor_request r;
 		r.set_read_request(m_buffer,
 						   &m_byteStreamAccessor,
@@ -650,6 +671,7 @@ public:
 		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
+		m_response.check_read();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -771,6 +793,18 @@ public:
 	}
 	
 };
+
+close_on_fail_guard::~close_on_fail_guard() {
+	if (m_committed) return;
+	if (m_failed) *m_failed = true;
+	try {
+		m_stream->close();
+	} catch (const std::exception & e) {
+		// The stream is closed nevertheless, and another exception is already on its way.
+		log_error() << "Failed to close a stream after an error: " << e.what() << std::endl;
+	}
+}
+
 compressed_stream_base::compressed_stream_base(memory_size_type itemSize,
 											   double blockFactor)
 	: m_cachedReads(0)
@@ -882,21 +916,38 @@ void compressed_stream_base::open(temp_file & file, open::type openFlags,
 
 void compressed_stream_base::close() {
 	m_p->uncache_read_writes();
+	std::exception_ptr error;
 	if (m_p->m_open) {
 		compressor_thread_lock l(m_p->compressor());
+		if (m_p->m_response.write_error_reported()) m_p->m_failed = true;
 
-		if (m_p->m_bufferDirty)
-			m_p->flush_block(l);
+		if (!m_p->m_failed) {
+			try {
+				if (m_p->m_bufferDirty)
+					m_p->flush_block(l);
 
-		m_p->m_buffer.reset();
+				m_p->m_buffer.reset();
 
-		m_p->finish_requests(l);
+				m_p->finish_requests(l);
 
-		if (m_p->use_compression()) {
-			m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+				if (m_p->use_compression()) {
+					m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+				}
+				m_p->m_byteStreamAccessor.set_size(m_size);
+				m_p->m_byteStreamAccessor.close();
+			} catch (...) {
+				error = std::current_exception();
+				m_p->m_failed = true;
+			}
+		}
+
+		if (m_p->m_failed) {
+			// Some data is lost, so leave the file not properly closed.
+			m_p->m_bufferDirty = false;
+			m_p->m_buffer.reset();
+			m_p->release_buffers(l);
+			m_p->m_byteStreamAccessor.discard();
 		}
-		m_p->m_byteStreamAccessor.set_size(m_size);
-		m_p->m_byteStreamAccessor.close();
 	}
 	m_p->m_open = false;
 	m_p->m_tempFile = NULL;
@@ -905,6 +956,8 @@ void compressed_stream_base::close() {
 	// If read/write is called on the closed stream,
 	// perform_seek throws an exception.
 	m_seekState = seek_state::beginning;
+
+	if (error) std::rethrow_exception(error);
 }
 
 
@@ -931,6 +984,7 @@ void compressed_stream_base::peak_unlikely() {
 	if (m_seekState != seek_state::none) m_p->perform_seek();
 	if (m_offset == m_size) throw end_of_stream_exception();
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -938,6 +992,7 @@ void compressed_stream_base::peak_unlikely() {
 		}
 		// At this point, block_number() == buffer_block_number() + 1
 		m_p->read_next_block(l, m_p->block_number());
+		closeOnFail.commit();
 	}
 }
 
@@ -949,6 +1004,7 @@ void compressed_stream_base::read_back_unlikely() {
 	if (m_nextItem == m_bufferBegin) {
 		if (m_offset == 0) throw end_of_stream_exception();
 		m_p->uncache_read_writes();
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -960,6 +1016,7 @@ void compressed_stream_base::read_back_unlikely() {
 			m_p->read_next_block(l, m_p->block_number() - 1);
 			m_nextItem = m_bufferEnd;
 		}
+		closeOnFail.commit();
 	}
 }
 
@@ -969,6 +1026,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 	
 	if (!m_p->use_compression()) {
 		if (m_nextItem == m_bufferEnd) {
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			if (m_p->m_bufferDirty) {
 				m_p->m_updateReadOffsetFromWrite = true;
@@ -980,6 +1038,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 			} else {
 				m_p->read_next_block(lock, m_p->block_number());
 			}
+			closeOnFail.commit();
 		}
 		if (offset() == m_size) ++m_size;
 		memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -994,6 +1053,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		throw stream_exception("Non-appending write attempted");
 	
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -1001,6 +1061,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		}
 		m_p->get_buffer(l, m_p->m_streamBlocks);
 		m_nextItem = m_bufferBegin;
+		closeOnFail.commit();
 	}
 	
 	memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1164,6 +1225,13 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 stream_position compressed_stream_base::get_position() {
 	tp_assert(is_open(), "get_position: !is_open");
 	if (!m_p->use_compression()) return stream_position(0, offset());
+	close_on_fail_guard closeOnFail(this);
+	const stream_position position = get_position_inner();
+	closeOnFail.commit();
+	return position;
+}
+
+stream_position compressed_stream_base::get_position_inner() {
 	switch (m_seekState) {
 	case seek_state::position:
 		// We just set_position, so we can just return what we got.
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index aa65c63..5bcc42f 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -123,14 +123,25 @@ public:
 				m_requests.pop();
 				lock.unlock();
 
+				// An exception is handed over to the stream.
 				switch (r.kind()) {
 					case compressor_request_kind::NONE:
 						throw exception("Invalid request");
 					case compressor_request_kind::READ:
-						process_read_request(r.get_read_request());
+						try {
+							process_read_request(r.get_read_request());
+						} catch (...) {
+							compressor_thread_lock::lock_t errorLock(mutex());
+							r.get_read_request().set_error(std::current_exception());
+						}
 						break;
 					case compressor_request_kind::WRITE:
-						process_write_request(r.get_write_request());
+						try {
+							process_write_request(r.get_write_request());
+						} catch (...) {
+							compressor_thread_lock::lock_t errorLock(mutex());
+							r.get_write_request().set_error(std::current_exception());
+						}
 						break;
 				}
 			}
-- 
2.43.0


From 8a7844aef05f0d3b873a59e85b6d520a386e9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 051/103] fix: a failed write must not be retried or forgotten
 by serialization streams

---
 tpie/serialization_stream.cpp | 60 ++++++++++++++++++++++++++++++-----
 tpie/serialization_stream.h   | 16 ++++++++--
 2 files changed, 66 insertions(+), 10 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 7326c71..61470c1 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -19,6 +19,7 @@
 
 #include <tpie/serialization_stream.h>
 #include <tpie/array.h>
+#include <tpie/tpie_log.h>
 #include <algorithm>
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -154,7 +155,11 @@ namespace {
 		~open_guard() {
 			if (!committed) {
 				open_flag = false;
-				fa.close_i();
+				try {
+					fa.close_i();
+				} catch (const tpie::exception &) {
+					// Another error is the reason for closing.
+				}
 			}
 		}
 	};
@@ -168,6 +173,7 @@ serialization_writer_base::serialization_writer_base()
 	: m_blocksWritten(0)
 	, m_size(0)
 	, m_open(false)
+	, m_failed(false)
 	, m_tempFile(0)
 {
 }
@@ -177,6 +183,7 @@ void serialization_writer_base::open_inner(std::string path, bool reverse) {
 	m_fileAccessor.set_cache_hint(access_sequential);
 	m_fileAccessor.open_wo(path);
 	open_guard guard(m_open, m_fileAccessor);
+	m_failed = false;
 	m_blocksWritten = 0;
 	m_size = 0;
 
@@ -199,8 +206,10 @@ void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
 	assert(n <= block_size());
 	stream_size_type offset = m_blocksWritten * block_size();
+	m_failed = true;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size() + offset);
 	m_fileAccessor.write_i(s, n);
+	m_failed = false;
 	++m_blocksWritten;
 	m_size = offset + n;
 	if (m_tempFile)
@@ -209,13 +218,22 @@ void serialization_writer_base::write_block(const char * const s, const memory_s
 
 void serialization_writer_base::close(bool reverse) {
 	if (!m_open) return;
+	// Whatever happens, the file is closed afterwards.
+	m_tempFile = 0;
+	open_guard guard(m_open, m_fileAccessor);
+	// If a block is missing, leave the file not properly closed.
+	if (m_failed) return;
 	bits::serialization_header header(m_fileAccessor);
 	header.set_size(m_size);
 	header.set_reverse(reverse);
 	header.write(true);
-	m_fileAccessor.close_i();
+	guard.commit();
 	m_open = false;
-	m_tempFile = 0;
+	m_fileAccessor.close_i();
+}
+
+bool serialization_writer_base::failed() {
+	return m_failed;
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -230,10 +248,16 @@ serialization_writer::serialization_writer()
 }
 
 serialization_writer::~serialization_writer() {
-	close();
+	try {
+		close();
+	} catch (const std::exception & e) {
+		log_error() << "Failed to close a serialization stream: " << e.what() << std::endl;
+	}
 }
 
 void serialization_writer::write_block() {
+	// After an error, the block stays full, so this fails again.
+	if (failed()) throw stream_exception("A previous write to this stream failed");
 	p_t::write_block(m_block.get(), m_index);
 	m_index = 0;
 }
@@ -253,7 +277,14 @@ void serialization_writer::open(temp_file & tempFile) {
 }
 
 void serialization_writer::close() {
-	if (m_index > 0) write_block();
+	try {
+		if (m_index > 0 && !failed()) write_block();
+	} catch (...) {
+		m_block.resize(0);
+		m_index = 0;
+		p_t::close(false);
+		throw;
+	}
 	m_block.resize(0);
 	m_index = 0;
 	p_t::close(false);
@@ -265,10 +296,16 @@ serialization_reverse_writer::serialization_reverse_writer()
 }
 
 serialization_reverse_writer::~serialization_reverse_writer() {
-	close();
+	try {
+		close();
+	} catch (const std::exception & e) {
+		log_error() << "Failed to close a serialization stream: " << e.what() << std::endl;
+	}
 }
 
 void serialization_reverse_writer::write_block() {
+	// After an error, the block stays full, so this fails again.
+	if (failed()) throw stream_exception("A previous write to this stream failed");
 	// See note about m_index and its semantics.
 	std::reverse(m_block.get(), m_block.get() + block_size());
 	p_t::write_block(m_block.get(), m_index);
@@ -290,7 +327,14 @@ void serialization_reverse_writer::open(temp_file & tempFile) {
 }
 
 void serialization_reverse_writer::close() {
-	if (m_index > 0) write_block();
+	try {
+		if (m_index > 0 && !failed()) write_block();
+	} catch (...) {
+		m_block.resize(0);
+		m_index = 0;
+		p_t::close(true);
+		throw;
+	}
 	m_block.resize(0);
 	m_index = 0;
 	p_t::close(true);
@@ -339,9 +383,9 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 
 void serialization_reader_base::close() {
 	if (!m_open) return;
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_block.resize(0);
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_reader_base::file_size() {
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index f0674c9..6578e58 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -48,6 +48,8 @@ private:
 	stream_size_type m_blocksWritten;
 	stream_size_type m_size;
 	bool m_open;
+	/** Whether a write_block has failed. */
+	bool m_failed;
 
 	temp_file * m_tempFile;
 
@@ -73,6 +75,8 @@ protected:
 
 	void close(bool reverse);
 
+	bool failed();
+
 public:
 	static memory_size_type memory_usage() { return block_size(); }
 
@@ -183,7 +187,8 @@ public:
 			std::copy(s, s + n, data.data() + offs);
 		}
 
-		~serializer() {
+		// Writing a block may fail.
+		~serializer() noexcept(false) {
 			std::vector<char> & data = wr.m_serializationBuffer;
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
@@ -194,7 +199,14 @@ public:
 				const char * i = s + n;
 				memory_size_type written = 0;
 				while (written != n) {
-					if (wr.m_index >= wr.block_size()) wr.write_block();
+					if (wr.m_index >= wr.block_size()) {
+						try {
+							wr.write_block();
+						} catch (...) {
+							data.resize(0);
+							throw;
+						}
+					}
 
 					memory_size_type remaining = n - written;
 					memory_size_type blockRemaining = wr.block_size() - wr.m_index;
-- 
2.43.0


From b989dee0f535416b7306c7ab0e437545937f592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 052/103] fix: a failed block read or write must not be retried
 in destructors or corrupt later reads

---
 tpie/file_base.cpp      | 39 +++++++++++++++++++++++++++++++--------
 tpie/file_base.h        | 17 ++++++++++++++---
 tpie/file_base_crtp.h   | 21 ++++++++++++++++++++-
 tpie/file_base_crtp.inl | 13 ++++++++++---
 tpie/file_stream_base.h | 19 +++++++++++++++++--
 tpie/stream_crtp.inl    |  3 +++
 6 files changed, 95 insertions(+), 17 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index aecbd2b..9bf7a47 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -30,7 +30,7 @@ namespace tpie {
 file_base::file_base(memory_size_type itemSize,
 					 double blockFactor,
 					 file_accessor::file_accessor * fileAccessor):
-	file_base_crtp<file_base>(itemSize, blockFactor, fileAccessor) {
+	file_base_crtp<file_base>(itemSize, blockFactor, fileAccessor), m_failed(false) {
 	m_emptyBlock.size = 0;
 	m_emptyBlock.number = std::numeric_limits<stream_size_type>::max();
 }
@@ -101,9 +101,16 @@ void file_base::free_block(block_t * block) {
 	--block->usage;
 	if (block->usage > 0) return;
 
+	std::exception_ptr error;
 	if (block->dirty || !m_canRead) {
 		assert(m_canWrite);
-		m_fileAccessor->write_block(block->data, block->number, block->size);
+		try {
+			m_fileAccessor->write_block(block->data, block->number, block->size);
+		} catch (...) {
+			// The contents of the block is lost.
+			m_failed = true;
+			error = std::current_exception();
+		}
 	}
 
 	boost::intrusive::list<block_t>::iterator i = m_used.iterator_to(*block);
@@ -111,25 +118,31 @@ void file_base::free_block(block_t * block) {
 	m_used.erase(i);
 
 	m_free.push_front(*block);
+
+	if (error) std::rethrow_exception(error);
 }
 
 void file_base::close() {
 	assert(m_free.empty());
 	assert(m_used.empty());
+	if (m_failed) p_t::discard();
+	m_failed = false;
 	p_t::close();
 }
 
 file_base::~file_base() {
 	assert(m_free.empty());
 	assert(m_used.empty());
+	if (m_failed) p_t::discard();
 	delete m_fileAccessor;
 }
 
 /*************************> file_base::stream <*******************************/
 void file_base::stream::update_block_core() {
 	if (m_block != &m_file->m_emptyBlock) {
-		m_file->free_block(m_block);
-		m_block = &m_file->m_emptyBlock; // necessary if get_block below throws
+		block_t * block = m_block;
+		m_block = &m_file->m_emptyBlock; // necessary if free_block or get_block below throws
+		m_file->free_block(block);
 	}
 	m_block = m_file->get_block(m_nextBlock);
 }
@@ -143,11 +156,16 @@ file_base::stream::stream(file_base & f, stream_size_type offset):
 }
 
 void file_base::stream::free() {
-	if (m_block) {
-		if (m_block != &m_file->m_emptyBlock) m_file->free_block(m_block);
+	if (!m_block) return;
+	block_t * block = m_block;
+	m_block = 0;
+	try {
+		if (block != &m_file->m_emptyBlock) m_file->free_block(block);
+	} catch (...) {
 		m_file->delete_block();
+		throw;
 	}
-	m_block = 0;
+	m_file->delete_block();
 }
 
 void file_base::stream::attach_inner(file_base & f) {
@@ -162,7 +180,12 @@ void file_base::stream::attach_inner(file_base & f) {
 
 void file_base::stream::detach_inner() {
 	if (!attached()) return;
-	free();
+	try {
+		free();
+	} catch (...) {
+		m_file = 0;
+		throw;
+	}
 	m_file = 0;
 }
 
diff --git a/tpie/file_base.h b/tpie/file_base.h
index 56d6c8d..670a2ad 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -28,6 +28,7 @@
 #include <tpie/file_base_crtp.h>
 #include <tpie/stream_crtp.h>
 #include <tpie/exception.h>
+#include <tpie/tpie_log.h>
 #include <tpie/file_accessor/file_accessor.h>
 #ifndef WIN32
 #include <tpie/file_accessor/posix.h>
@@ -160,7 +161,13 @@ public:
 		void free();
 
 	public:
-		inline ~stream() {free();}
+		inline ~stream() {
+			try {
+				free();
+			} catch (const std::exception & e) {
+				log_error() << "Failed to write to a file: " << e.what() << std::endl;
+			}
+		}
 
 
 	protected:
@@ -168,9 +175,10 @@ public:
 		/// \brief Set up block buffers and offsets.
 		///////////////////////////////////////////////////////////////////////
 		inline void initialize() {
-			if (m_block != &get_file().m_emptyBlock) get_file().free_block(m_block);
-			p_t::initialize();
+			block_t * block = m_block;
 			m_block = &get_file().m_emptyBlock;
+			p_t::initialize();
+			if (block != &get_file().m_emptyBlock) get_file().free_block(block);
 		}
 	};
 
@@ -205,6 +213,9 @@ protected:
 	block_t * get_block(stream_size_type block);
 	void free_block(block_t * block);
 
+	/** Whether some block could not be written. */
+	bool m_failed;
+
 
 	static block_t m_emptyBlock;
 	// TODO This should really be a hash map
diff --git a/tpie/file_base_crtp.h b/tpie/file_base_crtp.h
index 0a78d7d..9cd4cc5 100644
--- a/tpie/file_base_crtp.h
+++ b/tpie/file_base_crtp.h
@@ -34,6 +34,7 @@
 #include <tpie/file_accessor/file_accessor.h>
 #include <tpie/tempname.h>
 #include <cassert>
+#include <exception>
 
 namespace tpie {
 
@@ -245,10 +246,17 @@ public:
 	/// Note all streams into the file must be freed before you call close.
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
-		if (m_open) m_fileAccessor->close();
+		std::exception_ptr error;
+		try {
+			if (m_open) m_fileAccessor->close();
+		} catch (...) {
+			// The file accessor is closed nevertheless.
+			error = std::current_exception();
+		}
 		m_open = false;
 		m_tempFile = NULL;
 		m_ownedTempFile.reset();
+		if (error) std::rethrow_exception(error);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -271,6 +279,17 @@ public:
 	}
 
 protected:
+	/////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without marking it as properly closed,
+	/// since some of its contents is lost.
+	/////////////////////////////////////////////////////////////////////////
+	inline void discard() {
+		if (m_open) m_fileAccessor->discard();
+		m_open = false;
+		m_tempFile = NULL;
+		m_ownedTempFile.reset();
+	}
+
 	inline void open_inner(const std::string & path,
 						   access_type accessType,
 						   memory_size_type userDataSize,
diff --git a/tpie/file_base_crtp.inl b/tpie/file_base_crtp.inl
index a131b20..9b2fc0d 100644
--- a/tpie/file_base_crtp.inl
+++ b/tpie/file_base_crtp.inl
@@ -52,9 +52,16 @@ void file_base_crtp<child_t>::read_block(BT & b, stream_size_type block) {
 		b.size = static_cast<memory_size_type>(self().size() - block * m_blockItems);
 
 	// populate buffer data
-	if (b.size > 0 &&
-		m_fileAccessor->read_block(b.data, b.number, b.size) != b.size) {
-		throw io_exception("Incorrect number of items read");
+	try {
+		if (b.size > 0 &&
+			m_fileAccessor->read_block(b.data, b.number, b.size) != b.size) {
+			throw io_exception("Incorrect number of items read");
+		}
+	} catch (...) {
+		// The buffer does not contain any block.
+		b.size = 0;
+		b.number = std::numeric_limits<stream_size_type>::max();
+		throw;
 	}
 }
 
diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..8fabc58 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -27,6 +27,7 @@
 #include <tpie/tpie_export.h>
 #include <tpie/file_base_crtp.h>
 #include <tpie/stream_crtp.h>
+#include <tpie/tpie_log.h>
 #include <algorithm>
 namespace tpie {
 
@@ -50,9 +51,19 @@ public:
 	/// This will close the file and resources used by buffers and such.
 	/////////////////////////////////////////////////////////////////////////
 	inline void close() {
-		if (m_open) flush_block();
+		std::exception_ptr error;
+		try {
+			if (m_open) flush_block();
+		} catch (...) {
+			error = std::current_exception();
+		}
 		tpie_delete_array(m_block.data, m_itemSize * m_blockItems);
 		m_block.data = 0;
+		m_block.dirty = false;
+		if (error) {
+			p_t::discard();
+			std::rethrow_exception(error);
+		}
 		p_t::close();
 	}
 
@@ -84,7 +95,11 @@ protected:
 					 file_accessor::file_accessor * fileAccessor);
 
 	inline ~file_stream_base() {
-		close();
+		try {
+			close();
+		} catch (const std::exception & e) {
+			log_error() << "Failed to close a stream: " << e.what() << std::endl;
+		}
 	}
 
 	void swap(file_stream_base & other) {
diff --git a/tpie/stream_crtp.inl b/tpie/stream_crtp.inl
index a69c2b8..ec33e13 100644
--- a/tpie/stream_crtp.inl
+++ b/tpie/stream_crtp.inl
@@ -27,6 +27,9 @@ void stream_crtp<child_t>::update_block() {
 		m_nextBlock = self().get_block().number+1;
 		m_nextIndex = 0;
 	}
+	// If an exception is thrown below, there is no current block.
+	self().update_vars();
+	m_index = std::numeric_limits<memory_size_type>::max();
 	self().update_block_core();
 	m_blockStartIndex = m_nextBlock*static_cast<stream_size_type>(self().get_file().block_items());
 	m_index = m_nextIndex;
-- 
2.43.0


From 625ff8db7662ab1a8f75171f75c07f28f2fb7af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 053/103] fix: an I/O error while destroying a stream must not
 abort the process

---
 tpie/compressed/stream_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 29e383e..37ac705 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -824,8 +824,8 @@ compressed_stream_base::~compressed_stream_base() {
 	try {
 		close();
 	} catch (std::exception & e) {
+		// The file is not marked as properly closed, so the loss cannot go unnoticed.
 		log_error() << "Someone threw an error in file_stream::~file_stream: " << e.what() << std::endl;
-		abort();
 	}
 	delete m_p;
 	// non-trivial field destructors:
-- 
2.43.0


From 60cca53febcafabb625d0a9e008b6ec17ffbda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 054/103] fix: a failed truncate of an uncompressed stream or
 file must leave it unchanged

---
 tpie/file_base.h        | 2 +-
 tpie/file_stream_base.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/file_base.h b/tpie/file_base.h
index 670a2ad..6d0b32e 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -191,8 +191,8 @@ public:
 		if (!m_used.empty()) {
 			throw io_exception("Tried to truncate a file with one or more open streams");
 		}
-		m_size = s;
 		m_fileAccessor->truncate(s);
+		m_size = s;
 		if (m_tempFile)
 			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 	}
diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 8fabc58..82f771a 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -78,15 +78,15 @@ public:
 	inline void truncate(stream_size_type size) {
 		stream_size_type o=offset();
 		flush_block();
+		m_fileAccessor->truncate(size);
 		m_block.number = std::numeric_limits<stream_size_type>::max();
 		m_nextBlock = std::numeric_limits<stream_size_type>::max();
 		m_nextIndex = std::numeric_limits<memory_size_type>::max();
 		m_index = std::numeric_limits<memory_size_type>::max();
 		m_size = size;
-		m_fileAccessor->truncate(size);
+		seek(std::min(o, size));
 		if (m_tempFile)
 			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
-		seek(std::min(o, size));
 	}
 
 protected:
-- 
2.43.0


From 14e251c5825091b0690d9ceb53c9ecb68c8f5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 055/103] fix: destroying a temporary file must not throw, and
 always releases its recorded size

---
 tpie/tempname.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..20c86ff 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -300,10 +300,13 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
+	// Must not throw; if the file cannot be removed now,
+	// it is removed with the temporary directory.
+	std::error_code c;
+	std::filesystem::remove(m_path, c);
 	update_recorded_size(0);
 }
 
-- 
2.43.0


From af1b605d49370ead945edeef88551717938a1226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:47 +0000
Subject: [PATCH 056/103] fix: an I/O error while destroying a stack must not
 abort the process

---
 tpie/stack.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/stack.h b/tpie/stack.h
index 5360d84..14cfc03 100644
--- a/tpie/stack.h
+++ b/tpie/stack.h
@@ -30,6 +30,7 @@
 #include <tpie/stream.h>
 #include <tpie/compressed/stream.h>
 #include <tpie/tpie_assert.h>
+#include <tpie/tpie_log.h>
 
 namespace tpie {
 
@@ -92,8 +93,12 @@ public:
     /// end of the stack.
     ////////////////////////////////////////////////////////////////////
 	~stack() {
-		empty_buffer();
-		m_stream.truncate(m_stream.get_position());
+		try {
+			empty_buffer();
+			m_stream.truncate(m_stream.get_position());
+		} catch (const std::exception & e) {
+			log_error() << "Failed to write a stack to its file: " << e.what() << std::endl;
+		}
 	}
 
     ////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7e909897b9171f3246693d26a6a470202c3f5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 057/103] fix: an I/O error while destroying a merge sorter
 must not abort the process

---
 tpie/pipelining/merge_sorter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 7b1eead..48bb608 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -29,7 +29,7 @@ run_positions::run_positions()
 }
 
 run_positions::~run_positions() {
-	close();
+	// The streams close themselves, without throwing.
 }
 
 /*static*/ memory_size_type run_positions::memory_usage() noexcept {
-- 
2.43.0


From 7841da64246f1755e7cbb49b4ae915bc6cc66b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 058/103] fix: an I/O error while destroying a serialization
 sorter must not abort the process

---
 tpie/serialization_sorter.h | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 98d5d26..61fd31e 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -278,6 +278,9 @@ class file_handler {
 
 	array<serialization_reader> m_readers;
 
+	// Temporary file usage registered for the run files.
+	stream_offset_type m_usage;
+
 	std::string m_tempDir;
 
 	std::string run_file(size_t physicalIndex) {
@@ -298,6 +301,8 @@ public:
 
 		, m_writer()
 		, m_currentWriterByteSize(0)
+
+		, m_usage(0)
 	{
 	}
 
@@ -396,24 +401,25 @@ public:
 	}
 
 	void reset() {
-		if (m_readersOpen > 0) {
-			log_debug() << "reset: Close readers" << std::endl;
-			close_readers_and_delete();
-		}
+		// The runs are not needed any more, so errors do not matter.
 		m_readers.resize(0);
+		m_readersOpen = 0;
 		if (m_writerOpen) {
 			log_debug() << "reset: Close writer" << std::endl;
-			close_writer();
+			m_writerOpen = false;
+			try {
+				m_writer.close();
+			} catch (const tpie::exception & e) {
+				log_debug() << "reset: " << e.what() << std::endl;
+			}
 		}
 		log_debug() << "Remove " << m_fileOffset << " through " << m_nextFileOffset << std::endl;
 		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i) {
-			std::string runFile = run_file(i);
-			serialization_reader rd;
-			rd.open(runFile);
-			decrease_usage(i, rd.file_size());
-			rd.close();
-			std::filesystem::remove(runFile);
+			std::error_code ec;
+			std::filesystem::remove(run_file(i), ec);
 		}
+		increment_temp_file_usage(-m_usage);
+		m_usage = 0;
 		m_fileOffset = m_nextLevelFileOffset = m_nextFileOffset = 0;
 	}
 
@@ -421,11 +427,13 @@ private:
 	void increase_usage(size_t idx, stream_size_type sz) {
 		log_debug() << "+ " << idx << ' ' << sz << std::endl;
 		increment_temp_file_usage(static_cast<stream_offset_type>(sz));
+		m_usage += static_cast<stream_offset_type>(sz);
 	}
 
 	void decrease_usage(size_t idx, stream_size_type sz) {
 		log_debug() << "- " << idx << ' ' << sz << std::endl;
 		increment_temp_file_usage(-static_cast<stream_offset_type>(sz));
+		m_usage -= static_cast<stream_offset_type>(sz);
 	}
 };
 
-- 
2.43.0


From e02bcf6dda5854f2984c53d865e171a0d7d39912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 059/103] fix: a failed block write or read must leave the
 block cache consistent

---
 tpie/blocks/block_collection_cache.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index 79dba63..1f0f40b 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -43,10 +43,9 @@ block_collection_cache::~block_collection_cache() {
 }
 
 block_handle block_collection_cache::get_free_block() {
-	block_handle h = m_collection.get_free_block();
-	block * cache_b = tpie_new<block>(m_blockSize);
 	prepare_cache();
-	add_to_cache(h, cache_b, true);
+	block_handle h = m_collection.get_free_block();
+	add_to_cache(h, tpie_new<block>(m_blockSize), true);
 	return h;
 }
 
@@ -72,11 +71,11 @@ void block_collection_cache::prepare_cache() {
 
 	// write the last accessed block to disk
 	block_handle handle = m_blockList.front();
-	m_blockList.pop_front();
 
 	block_map_t::iterator i = m_blockMap.find(handle);
 	if(i->second.dirty)
 		m_collection.write_block(i->first, *(i->second.pointer));
+	m_blockList.pop_front();
 	tpie_delete(i->second.pointer);
 	--m_curSize;
 	m_blockMap.erase(i);
@@ -110,7 +109,12 @@ block * block_collection_cache::read_block(block_handle handle) {
 	prepare_cache(); // make space in the cache for the new block
 
 	block * cache_b = tpie_new<block>();
-	m_collection.read_block(handle, *cache_b);
+	try {
+		m_collection.read_block(handle, *cache_b);
+	} catch (...) {
+		tpie_delete(cache_b);
+		throw;
+	}
 	add_to_cache(handle, cache_b, false);
 
 	return cache_b;
-- 
2.43.0


From 4ab0120436fca2d3a4cb4aca0fd2feb8e461cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 060/103] fix: after a failed write the lost block of a file
 must not be read as garbage

---
 tpie/file_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index 9bf7a47..a343a00 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -75,6 +75,8 @@ file_base::block_t * file_base::get_block(stream_size_type block) {
 	if (i == m_used.end()) {
 		// block not buffered. populate a free buffer.
 		assert(!m_free.empty());
+		if (m_failed)
+			throw io_exception("Some block of the file could not be written");
 
 		// fetch a free buffer
 		b = &m_free.front();
-- 
2.43.0


From 8a15c84e2bcc47386d1bde334bb0d650a205ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:49 +0000
Subject: [PATCH 061/103] fix: a stream header with an impossible size or
 without the offset of the last block must be rejected

---
 tpie/file_accessor/stream_accessor_base.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index b95fdab..8170e94 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -89,6 +89,13 @@ void stream_accessor_base<file_accessor_t>::validate_header(const stream_header_
 	if (header.blockSize != m_blockSize)
 		throw invalid_file_exception("Invalid file, block size is wrong");
 
+	if (header.size > static_cast<stream_size_type>(std::numeric_limits<stream_offset_type>::max()) / m_itemSize)
+		throw invalid_file_exception("Invalid file, size is too large");
+
+	if (header.get_compressed() && header.size > m_blockItems
+		&& header.lastBlockReadOffset == std::numeric_limits<stream_size_type>::max())
+		throw invalid_file_exception("Invalid file, offset of the last block is missing");
+
 	if (header.userDataSize > header.maxUserDataSize)
 		throw invalid_file_exception("Invalid file, user data size is greater than max user data size");
 
-- 
2.43.0


From 624ec252eab4512032f4ae55288b78ead8ece8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:49 +0000
Subject: [PATCH 062/103] fix: reading a damaged compressed block backwards
 must check its number of items

---
 tpie/compressed/stream_base.cpp | 36 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 37ac705..9b5dd5a 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -564,6 +564,24 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Check that the block just read holds the items it should.
+	///////////////////////////////////////////////////////////////////////////
+	void check_block_size(stream_size_type blockNumber) {
+		size_t blockItems = m_blockItems;
+		if (m_o->size() - blockNumber * m_blockItems < blockItems) {
+			blockItems = static_cast<size_t>(m_o->size() - blockNumber * m_blockItems);
+		}
+		size_t usableBlockSize = m_buffer->size() / m_itemSize * m_itemSize;
+		size_t expectedBlockSize = blockItems * m_itemSize;
+		if (usableBlockSize != expectedBlockSize) {
+			log_error() << "Expected " << expectedBlockSize << " (" << blockItems
+						<< " items), got " << m_buffer->size() << " (rounded to "
+						<< usableBlockSize << ')' << std::endl;
+			throw exception("Bad buffer->get_size");
+		}
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Reads next block according to nextReadOffset/nextBlockSize.
 	///
@@ -596,19 +614,8 @@ public:
 			}
 		
 			read_block(lock, readOffset, read_direction::forward);
-			size_t blockItems = m_blockItems;
-			if (m_o->size() - blockNumber * m_blockItems < blockItems) {
-				blockItems = static_cast<size_t>(m_o->size() - blockNumber * m_blockItems);
-			}
-			size_t usableBlockSize = m_buffer->size() / m_itemSize * m_itemSize;
-			size_t expectedBlockSize = blockItems * m_itemSize;
-			if (usableBlockSize != expectedBlockSize) {
-				log_error() << "Expected " << expectedBlockSize << " (" << blockItems
-							<< " items), got " << m_buffer->size() << " (rounded to "
-							<< usableBlockSize << ')' << std::endl;
-				throw exception("read_next_block: Bad buffer->get_size");
-			}
-		
+			check_block_size(blockNumber);
+
 			// Update m_readOffset, m_nextReadOffset
 			if (use_compression()) {
 				m_readOffset = readOffset;
@@ -639,7 +646,8 @@ public:
 			m_nextReadOffset = m_readOffset + m_buffer->get_block_size();
 		} else {
 			read_block(lock, m_readOffset, read_direction::backward);
-		
+			check_block_size(blockNumber);
+
 			// This is backwards since we are reading backwards.
 			// Confusing, I know.
 			m_nextReadOffset = m_readOffset;
-- 
2.43.0


From 814434e1605b95f3be8931f31d8566d07f36a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 063/103] fix: damaged or truncated serialized B-trees must be
 rejected, not read beyond their buffers

---
 tpie/btree/serialized_store.h | 46 ++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index bd162bf..4d36688 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -101,7 +101,8 @@ private:
 		serilization_buffer(size_t n) : m_buffer(n) {}
 
 		void read(char * buf, size_t size) {
-			assert(m_index + size <= m_buffer.size());
+			if (size > m_buffer.size() - m_index)
+				throw io_exception("Invalid B-tree node");
 			memcpy(buf, m_buffer.data() + m_index, size);
 			m_index += size;
 		}
@@ -200,6 +201,21 @@ private:
 		s.write(compressed_buffer.data(), compressed_size);
 	}
 
+	template <typename D>
+	static void check_read(D & d) {
+		if (d) return;
+		d.clear();
+		throw io_exception("Unable to read B-tree node");
+	}
+
+	template <typename S, typename N>
+	static void unserialize_values(S & s, N & i) {
+		using tpie::unserialize;
+		if (i.count == 0 || i.count > sizeof(i.values) / sizeof(*i.values))
+			throw io_exception("Invalid B-tree node");
+		unserialize(s, i.values, i.values + i.count);
+	}
+
 	template <typename D, typename N>
 	void unserialize(D & d, N & i) const {
 		using tpie::unserialize;
@@ -208,24 +224,33 @@ private:
 
 		if (compression_type == btree_flags::compress_none) {
 			unserialize(d, i.count);
-			unserialize(d, i.values, i.values + i.count);
+			check_read(d);
+			unserialize_values(d, i);
+			check_read(d);
 			return;
 		}
 
 		int32_t uncompressed_size, compressed_size;
 		d.read(reinterpret_cast<char *>(&uncompressed_size), sizeof(uncompressed_size));
 		d.read(reinterpret_cast<char *>(&compressed_size), sizeof(compressed_size));
+		check_read(d);
+		const size_t max_size = sizeof(i.count) + sizeof(i.values);
+		// None of the compressors makes its input this much larger.
+		if (uncompressed_size < 0 || (size_t)uncompressed_size > max_size
+			|| compressed_size < 0 || (size_t)compressed_size > 2 * max_size + 512)
+			throw io_exception("Invalid B-tree node");
 
 		std::vector<char> compressed_buffer((size_t)compressed_size);
 		d.read(compressed_buffer.data(), compressed_size);
+		check_read(d);
 
 		serilization_buffer uncompressed_buffer((size_t)uncompressed_size);
 
 		switch (m_flags & btree_flags::compression_mask) {
 #ifdef TPIE_HAS_LZ4
 		case compress_lz4: {
-			int r = LZ4_decompress_fast(compressed_buffer.data(), uncompressed_buffer.data(), uncompressed_size);
-			if (r != compressed_size)
+			int r = LZ4_decompress_safe(compressed_buffer.data(), uncompressed_buffer.data(), compressed_size, uncompressed_size);
+			if (r != uncompressed_size)
 				throw io_exception("B-tree decompression failed");
 			break;
 		}
@@ -240,7 +265,10 @@ private:
 #endif
 #ifdef TPIE_HAS_SNAPPY
 		case compress_snappy: {
-			bool ok = snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
+			size_t length;
+			bool ok = snappy::GetUncompressedLength(compressed_buffer.data(), (size_t)compressed_size, &length)
+				&& length == (size_t)uncompressed_size
+				&& snappy::RawUncompress(compressed_buffer.data(), (size_t)compressed_size, uncompressed_buffer.data());
 			if (!ok)
 				throw io_exception("B-tree decompression failed");
 			break;
@@ -251,7 +279,7 @@ private:
 		}
 
 		unserialize(uncompressed_buffer, i.count);
-		unserialize(uncompressed_buffer, i.values, i.values + i.count);
+		unserialize_values(uncompressed_buffer, i);
 	}
 
 	struct internal {
@@ -388,10 +416,15 @@ private:
 				h.flags = btree_flags::defaults_v0;
 			} else if (h.version == 1) {
 				f->read(reinterpret_cast<char *>(&h.flags), sizeof(h.flags));
+				if (!*f)
+					throw invalid_file_exception("Unable to read header");
 			} else {
 				throw invalid_file_exception("Bad version");
 			}
 
+			if ((h.height == 0) != (h.size == 0))
+				throw invalid_file_exception("Bad size");
+
 			m_height = h.height;
 			m_size = h.size;
 			metadata_offset = h.metadata_offset;
@@ -605,6 +638,7 @@ private:
 		std::string data(metadata_size, '\0');
 		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
+		check_read(*f);
 		return data;
 	}
 
-- 
2.43.0


From 8dc8285f1686f768e1cf511983c532296ee9994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 064/103] fix: errors writing a serialized B-tree must be
 reported

---
 tpie/btree/serialized_store.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 4d36688..3ba94f1 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -615,9 +615,13 @@ private:
 		h.metadata_size = metadata_size;
 		h.flags = m_flags;
 		f->seekp(0);
+		if (!*f) // a file without a header is not mistaken for a complete tree
+			throw io_exception("Unable to write B-tree");
 		f->write(reinterpret_cast<char *>(&h), sizeof(h));
 		f->close();
-		
+		if (!*f)
+			throw io_exception("Unable to write B-tree");
+
 		f->open(path, std::ios_base::in | std::ios_base::binary);
 		if (!f->is_open())
 			throw invalid_file_exception("Open failed");
-- 
2.43.0


From 7d7c3d2ce0b2a6b0560d98e63439984f74ec4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 065/103] fix: internal_reverser did not compile

---
 tpie/pipelining/reverse.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..54c76b8 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,9 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			item_type item = std::move(m_stack->top());
+			m_stack->pop();
+			dest.push(std::move(item));
 			step();
 		}
 	}
-- 
2.43.0


From 27d5987e5be7334e383bc37624725fb69dcf745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:58 +0000
Subject: [PATCH 066/103] fix: the serialization sorter must work with the
 minimum memory its stages ask for

---
 tpie/pipelining/serialization_sort.h |  6 +++---
 tpie/serialization_sorter.h          | 26 ++++++++------------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/tpie/pipelining/serialization_sort.h b/tpie/pipelining/serialization_sort.h
index 2cb9017..1ffbff2 100644
--- a/tpie/pipelining/serialization_sort.h
+++ b/tpie/pipelining/serialization_sort.h
@@ -122,7 +122,7 @@ public:
 	sort_pull_output_t(sorterptr sorter)
 		: sort_output_base<Traits>(sorter)
 	{
-		this->set_minimum_memory(sorter_t::minimum_memory_phase_3());
+		this->set_minimum_memory(sorter_t::minimum_memory_phase_3(sizeof(item_type)));
 		this->set_name("Write sorted output", PRIORITY_INSIGNIFICANT);
 		this->set_memory_fraction(1.0);
 	}
@@ -165,7 +165,7 @@ public:
 		, dest(std::move(dest))
 	{
 		this->add_push_destination(dest);
-		this->set_minimum_memory(sorter_t::minimum_memory_phase_3());
+		this->set_minimum_memory(sorter_t::minimum_memory_phase_3(sizeof(item_type)));
 		this->set_name("Write sorted output", PRIORITY_INSIGNIFICANT);
 		this->set_memory_fraction(1.0);
 	}
@@ -212,7 +212,7 @@ public:
 	}
 
 	void init() {
-		set_minimum_memory(sorter_t::minimum_memory_phase_2());
+		set_minimum_memory(sorter_t::minimum_memory_phase_2(sizeof(item_type)));
 		set_name("Perform merge heap", PRIORITY_SIGNIFICANT);
 		set_memory_fraction(1.0);
 		m_propagate_called = false;
diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 61fd31e..361cafd 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -646,13 +646,13 @@ public:
 		return serialization_writer::memory_usage()*2;
 	}
 
-	static memory_size_type minimum_memory_phase_2() {
+	static memory_size_type minimum_memory_phase_2(memory_size_type itemSize = 0) {
 		return serialization_writer::memory_usage()
-			+ 2*serialization_reader::memory_usage();
+			+ 2*(serialization_reader::memory_usage() + itemSize);
 	}
 
-	static memory_size_type minimum_memory_phase_3() {
-		return 2*serialization_reader::memory_usage();
+	static memory_size_type minimum_memory_phase_3(memory_size_type itemSize = 0) {
+		return 2*(serialization_reader::memory_usage() + itemSize);
 	}
 
 	memory_size_type actual_memory_phase_3() {
@@ -721,23 +721,13 @@ private:
 
 		memory_size_type memAvail3 = m_params.memoryPhase3;
 
-		// We have to keep a writer open no matter what.
-		if (memAvail2 <= serialization_writer::memory_usage()) {
-			log_error() << "Not enough memory for outputting. "
-				<< "mem avail = " << memAvail3
-				<< ", writer usage = " << serialization_writer::memory_usage()
-				<< std::endl;
-			throw exception("Not enough memory for outputting.");
-		}
-
-		memory_size_type memForMerge = std::min(memAvail2, memAvail3);
-
 		// We do not yet know the serialized size of the largest item,
 		// so this calculation has to be redone.
 		// Instead, we assume that all items have minimum size.
 
-		// We have to keep a writer open no matter what.
-		memory_size_type fanoutMemory = memForMerge - serialization_writer::memory_usage();
+		// Merging in phase 2 keeps a writer open; the final merge in phase 3
+		// does not write anything.
+		memory_size_type fanoutMemory = std::min(memAvail2 - serialization_writer::memory_usage(), memAvail3);
 
 		// This is a lower bound on the memory used per fanout.
 		memory_size_type perFanout = m_params.minimumItemSize + serialization_reader::memory_usage();
@@ -746,7 +736,7 @@ private:
 		memory_size_type fanout = std::min(fanoutMemory / perFanout, m_params.filesPhase2 - 1);
 		if (fanout < 2) {
 			log_error() << "Not enough memory for merging, even when minimum item size is assumed. "
-				<< "mem avail = " << memForMerge
+				<< "mem avail = " << memAvail2 << " and " << memAvail3
 				<< ", fanout memory = " << fanoutMemory
 				<< ", per fanout >= " << perFanout
 				<< std::endl;
-- 
2.43.0


From 00aa0cf7d1ef5d876af26196ab5a635c760ed14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:58 +0000
Subject: [PATCH 067/103] fix: a virtual pull chunk must connect its stage to
 its source with a pull edge

---
 tpie/pipelining/virtual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index 90d84a1..ed1aa9f 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -844,7 +844,7 @@ public:
 		input_type temp(m_input);
 		this->m_nodeMap = temp.get_node_map();
 		fact_t f = std::move(pipe.factory);
-		f.set_destination_kind_push();
+		f.set_destination_kind_pull();
 		m_output = new bits::virtpullsrc_impl<constructed_type, Output>(f.construct(std::move(temp)));
 		this->m_node = bits::virt_node::take_own(m_output);
 		return *this;
-- 
2.43.0


From b654bbdb50a442f92eaffec56ac999750cff3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:44 +0000
Subject: [PATCH 068/103] fix: range must announce the number of items it
 pushes

---
 tpie/pipelining/numeric.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/numeric.h b/tpie/pipelining/numeric.h
index 8459fa1..d3dbdd8 100644
--- a/tpie/pipelining/numeric.h
+++ b/tpie/pipelining/numeric.h
@@ -53,7 +53,11 @@ public:
 	range_t(dest_t dest, item_type from, item_type to, item_type increment) : from(from), to(to), increment(increment), dest(std::move(dest)) {}
 
 	void propagate() {
-		stream_size_type items = (from - to) / increment;
+		stream_size_type items = 0;
+		if (from < to) {
+			items = static_cast<stream_size_type>((to - from) / increment);
+			if (from + static_cast<item_type>(items) * increment < to) ++items;
+		}
 		set_steps(items);
 		forward("items", items);
 	}
-- 
2.43.0


From 3136624bde578902539aa69f5bd7a93dfd78a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 069/103] fix: a subindicator must advance its parent by
 exactly its part, also for empty and very large ranges

---
 tpie/progress_indicator_subindicator.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..fe5a673 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -19,6 +19,7 @@
 
 #include "progress_indicator_subindicator.h"
 #include <tpie/backtrace.h>
+#include <limits>
 #include <sstream>
 
 namespace tpie {
@@ -132,7 +133,18 @@ void progress_indicator_subindicator::refresh() {
 	stream_size_type val = get_current();
 	if (val > get_range()) val = get_range();
 	if (get_range() == 0) return;
-	stream_size_type value= val* m_outerRange / get_range();
+	stream_size_type value;
+	if (val == get_range()) {
+		value = m_outerRange;
+	} else if (m_outerRange == 0 || val <= std::numeric_limits<stream_size_type>::max() / m_outerRange) {
+		value = val * m_outerRange / get_range();
+	} else {
+		// The product does not fit in a stream_size_type.
+		double share = static_cast<double>(val) / static_cast<double>(get_range()) * static_cast<double>(m_outerRange);
+		value = share < static_cast<double>(m_outerRange) ? static_cast<stream_size_type>(share) : m_outerRange;
+	}
+	// Never step backwards, even if rounding or a new range would have us do so.
+	if (value < m_oldValue) return;
 	if (m_parent) {
 		m_parent->raw_step(value - m_oldValue);
 		m_oldValue = value;
@@ -163,6 +175,12 @@ void progress_indicator_subindicator::done() {
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	m_current = m_range; 
+	if (m_range == 0 && m_parent) {
+		// No steps at all, but our part of the parent is done.
+		m_parent->raw_step(m_outerRange - m_oldValue);
+		m_oldValue = m_outerRange;
+		return;
+	}
 	refresh();
 }
 
-- 
2.43.0


From 9dcc5dd5923f932e4626d4c223ffb18bcc4db3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 070/103] fix: a moved progress subindicator must keep its
 parent and its steps

---
 tpie/progress_indicator_base.cpp         |  4 ++++
 tpie/progress_indicator_subindicator.cpp | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..eea6098 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -19,6 +19,7 @@
 
 #include "progress_indicator_base.h"
 #include <tpie/tpie_assert.h>
+#include <limits>
 
 namespace tpie {
 
@@ -31,6 +32,7 @@ struct progress_indicator_base::refresh_impl {
 progress_indicator_base::progress_indicator_base(stream_size_type range)
 	: m_range(range)
 	, m_current(0)
+	, m_remainingSteps(std::numeric_limits<stream_size_type>::max()) // no refresh before init()
 	, m_predictor(nullptr)
 {
 	m_refreshImpl = new progress_indicator_base::refresh_impl;
@@ -39,6 +41,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +51,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index fe5a673..3f77b12 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -36,6 +36,10 @@ void progress_indicator_subindicator::pop_breadcrumb() {
 progress_indicator_subindicator::progress_indicator_subindicator()
 	: progress_indicator_base(0)
 	, m_parent(nullptr)
+	, m_outerRange(0)
+	, m_oldValue(0)
+	, m_importance(IMPORTANCE_MAJOR)
+	, m_logGroupMode(log_group_mode::enabled)
 #ifndef TPIE_NDEBUG
 	, m_init_called(false)
 	, m_done_called(false)
@@ -74,9 +78,9 @@ progress_indicator_subindicator::progress_indicator_subindicator(progress_indica
 #endif
 {
 #ifndef TPIE_NDEBUG
-	m_init_called = false;
+	o.m_init_called = false;
 #endif
-	m_parent = nullptr;
+	o.m_parent = nullptr;
 }
 
 progress_indicator_subindicator & progress_indicator_subindicator::operator=(progress_indicator_subindicator && o) {
@@ -89,7 +93,7 @@ progress_indicator_subindicator & progress_indicator_subindicator::operator=(pro
 	std::swap(m_logGroupMode, o.m_logGroupMode);
 #ifndef TPIE_NDEBUG
 	std::swap(m_init_called, o.m_init_called);
-	std::swap(m_done_called, m_done_called);
+	std::swap(m_done_called, o.m_done_called);
 #endif
 	return *this;
 }
-- 
2.43.0


From 9abae4624498b0b6748b7c647d784c173419c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 071/103] fix: a progress subindicator must end the log group
 it began

---
 tpie/progress_indicator_subindicator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 3f77b12..4f8829d 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -172,10 +172,9 @@ void progress_indicator_subindicator::done() {
 	softassert(m_init_called);
 	softassert(!m_done_called);
 	m_done_called=true;
-
+#endif
 	if(m_logGroupMode == log_group_mode::enabled)
 		end_log_group();
-#endif
 	if (!m_crumb.empty() && m_parent) m_parent->pop_breadcrumb();
 	progress_indicator_base::done();
 	m_current = m_range; 
-- 
2.43.0


From 7a60919f336a10715719f07eed006bf95f384e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:59 +0000
Subject: [PATCH 072/103] fix: the terminal progress indicators must work with
 an empty range and a title longer than the line

---
 tpie/progress_indicator_arrow.h    | 4 ++--
 tpie/progress_indicator_terminal.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_arrow.h b/tpie/progress_indicator_arrow.h
index c74fec4..2e90cc7 100644
--- a/tpie/progress_indicator_arrow.h
+++ b/tpie/progress_indicator_arrow.h
@@ -82,7 +82,7 @@ namespace tpie {
 	    //  Compute the relative length of the arrow.
 		//std::cout << "refresh " << m_description << std::endl;
 
-		memory_size_type l = m_indicatorLength - 12  - m_title.size();
+		memory_size_type l = m_indicatorLength > 12 + m_title.size() ? m_indicatorLength - 12 - m_title.size() : 1;
 		memory_size_type progress = (m_range != 0) ?
 			static_cast<memory_size_type>(l * m_current / m_range) : 0;
 
@@ -105,7 +105,7 @@ namespace tpie {
 			status << std::string(l-progress-1, ' ');
 			status << "] ";
 
-			status << m_current * 100 / m_range << '%';
+			status << (m_range != 0 ? m_current * 100 / m_range : 100) << '%';
 
 			for (std::deque<std::string>::iterator i = m_crumbs.begin(); i != m_crumbs.end(); ++i) {
 				if (i == m_crumbs.begin()) status << ' ';
diff --git a/tpie/progress_indicator_terminal.h b/tpie/progress_indicator_terminal.h
index 5b4b17d..8b0f0df 100644
--- a/tpie/progress_indicator_terminal.h
+++ b/tpie/progress_indicator_terminal.h
@@ -147,7 +147,7 @@ protected:
 	    //else {
 		//		std::cout << 
 	    //}
-		stream_size_type r = (m_current) * 100 / (m_range);
+		stream_size_type r = m_range != 0 ? (m_current) * 100 / (m_range) : 100;
 		m_os << r << '%';
 	}
 	
-- 
2.43.0


From b9f1b2643d1a8cb0159be92d2cce30bfb3f5e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 073/103] fix: an increase of usage refused by the limit must
 not be counted

---
 tpie/file_accessor/posix.inl |  7 ++++++-
 tpie/file_accessor/win32.inl |  9 ++++++---
 tpie/resource_manager.cpp    | 18 +++++++++++-------
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 945e216..f6fb0fa 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -107,11 +107,16 @@ inline stream_size_type posix::file_size_i() {
 }
 
 void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
+	// Count the file before it is created or truncated,
+	// since counting it throws when no more files may be opened.
+	get_file_manager().increment_open_file_count();
 	m_fd = ::open(path.c_str(), flags, mode);
 	if (m_fd == -1) {
+		const int err = errno;
+		get_file_manager().decrement_open_file_count();
+		errno = err;
 		return;
 	}
-	get_file_manager().increment_open_file_count();
 	give_advice();
 }
 
diff --git a/tpie/file_accessor/win32.inl b/tpie/file_accessor/win32.inl
index a604284..2878004 100644
--- a/tpie/file_accessor/win32.inl
+++ b/tpie/file_accessor/win32.inl
@@ -89,10 +89,13 @@ void win32::set_cache_hint(cache_hint cacheHint) {
 }
 
 void win32::_open(const std::string & path, DWORD access, DWORD create_mode) {
-	m_fd = CreateFileA(path.c_str(), access, shared_flags, 0, create_mode, m_creationFlag, 0);
-	if (m_fd == INVALID_HANDLE_VALUE) return;
-
 	get_file_manager().increment_open_file_count();
+	m_fd = CreateFileA(path.c_str(), access, shared_flags, 0, create_mode, m_creationFlag, 0);
+	if (m_fd == INVALID_HANDLE_VALUE) {
+		const DWORD err = GetLastError();
+		get_file_manager().decrement_open_file_count();
+		SetLastError(err);
+	}
 }
 
 void win32::open_wo(const std::string & path) {
diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..71b4deb 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -55,13 +55,17 @@ void resource_manager::register_increased_usage(size_t amount) {
 		m_used.fetch_add(amount);
 		break;
 	case ENFORCE_THROW: {
-		size_t usage = m_used.fetch_add(amount) + amount;
-		if (usage > m_limit && m_limit > 0) {
-			std::stringstream ss;
-			print_resource_complaint(ss, amount, usage);
-			throw_out_of_resource_error(ss.str());
-			throw out_of_resource_error(ss.str());
-		}
+		// A failed attempt must not be counted.
+		size_t used = m_used.load();
+		do {
+			size_t usage = used + amount;
+			if (usage > m_limit && m_limit > 0) {
+				std::stringstream ss;
+				print_resource_complaint(ss, amount, usage);
+				throw_out_of_resource_error(ss.str());
+				throw out_of_resource_error(ss.str());
+			}
+		} while (!m_used.compare_exchange_weak(used, used + amount));
 		break; }
 	case ENFORCE_DEBUG:
 	case ENFORCE_WARN: {
-- 
2.43.0


From e1642bc3450a65b71ee8db115a114124af11de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 074/103] fix: an allocator must take back the memory it
 registered when the allocation fails

---
 tpie/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..9c78d32 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -398,8 +398,14 @@ public:
 
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
+		T * res;
+		try {
+			res = a.allocate(size);
+		} catch (...) {
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
 		return res;
     }
 
-- 
2.43.0


From 2783c15b405305c64b1fa4061badc88d3b9cf5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 075/103] fix: the largest consecutive memory must not leak
 when it cannot be registered

---
 tpie/memory.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tpie/memory.cpp b/tpie/memory.cpp
index 18111fb..326493e 100644
--- a/tpie/memory.cpp
+++ b/tpie/memory.cpp
@@ -67,8 +67,7 @@ std::pair<uint8_t *, size_t> memory_manager::__allocate_consecutive(size_t upper
 	//first check quickly if we can get "high" bytes of memory
 	//directly.
 	try {
-		res = new uint8_t[high*granularity];
-		register_allocation(high*granularity, typeid(uint8_t));
+		res = tpie_new_array<uint8_t>(high*granularity);
 		return std::make_pair(res, high*granularity);
 	} catch (std::bad_alloc &) {
 		lf.buf << "Failed to get " << (high*granularity)/(1024*1024) << " megabytes of memory. "
@@ -99,8 +98,7 @@ std::pair<uint8_t *, size_t> memory_manager::__allocate_consecutive(size_t upper
 	} while (high >= low);
 	lf.buf << "- - - - - - - END MEMORY SEARCH - - - - - -\n";	
 
-	res = new uint8_t[best];
-	register_allocation(best, typeid(uint8_t));
+	res = tpie_new_array<uint8_t>(best);
 	return std::make_pair(res, best);
 }
 
-- 
2.43.0


From 5257842c11ae85a3ce46dea3fe76e3b9af7f9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 076/103] fix: tpie_new must free the memory of an object whose
 construction failed without looking into it

---
 tpie/memory.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 9c78d32..560aa65 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -172,6 +172,18 @@ inline void tpie_deallocate(T * p) {
 		delete[] (pp - sizeof(size_t));
 }
 
+///////////////////////////////////////////////////////////////////////////////
+/// \internal
+/// Free memory from tpie_allocate in which no object lives. Its contents may
+/// not be used to find the address of the memory, unlike in tpie_deallocate.
+///////////////////////////////////////////////////////////////////////////////
+template <typename T>
+inline void tpie_deallocate_raw(T * p) {
+	if (p == nullptr) return;
+	uint8_t * pp = reinterpret_cast<uint8_t *>(p);
+	delete[] (std::is_polymorphic<T>::value ? pp - sizeof(size_t) : pp);
+}
+
 template <typename T>
 inline size_t tpie_size(T * p) {
 	if(!std::is_polymorphic<T>::value) return sizeof(T);
@@ -235,7 +247,7 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		tpie_deallocate_raw(data);
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From 12b2b83bd897dc7fcf5eaef0e972d566d559017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 077/103] fix: memory must not stay registered when its type
 cannot be recorded

---
 tpie/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 560aa65..564747d 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -79,7 +79,12 @@ public:
 	void register_allocation(size_t bytes, const std::type_info & t) {
 		register_increased_usage(bytes);
 #ifndef TPIE_NDEBUG
-		register_typed_allocation(bytes, t);
+		try {
+			register_typed_allocation(bytes, t);
+		} catch (...) {
+			register_decreased_usage(bytes);
+			throw;
+		}
 #else
 		unused(t);
 #endif
-- 
2.43.0


From cf11da4509caef4e9982617e5ade9ab2121d4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:44 +0000
Subject: [PATCH 078/103] fix: tpie_new must align polymorphic objects

---
 tpie/memory.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 564747d..e22c4dc 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -35,6 +35,7 @@
 #include <utility>
 #include <memory>
 #include <atomic>
+#include <cstddef>
 #include <typeindex>
 
 namespace tpie {
@@ -160,12 +161,19 @@ template <typename D, typename T>
 inline D ptr_cast(T * t) { return reinterpret_cast<D>(__object_addr<T>()(t)); }
 
 
+///////////////////////////////////////////////////////////////////////////////
+/// \internal
+/// Size of the header in front of a polymorphic object, which stores the size
+/// of the object. It must not spoil the alignment of the object.
+///////////////////////////////////////////////////////////////////////////////
+enum : size_t { __object_header_size = alignof(std::max_align_t) };
+
 template <typename T>
 inline T * tpie_allocate() {
 	if(!std::is_polymorphic<T>::value) return reinterpret_cast<T *>(new uint8_t[sizeof(T)]);	
-	uint8_t * x = new uint8_t[sizeof(T)+sizeof(size_t)];
+	uint8_t * x = new uint8_t[sizeof(T)+__object_header_size];
 	*reinterpret_cast<size_t*>(x) = sizeof(T);
-	return reinterpret_cast<T*>(x + sizeof(size_t));
+	return reinterpret_cast<T*>(x + __object_header_size);
 }
 
 template <typename T>
@@ -174,7 +182,7 @@ inline void tpie_deallocate(T * p) {
 	if(!std::is_polymorphic<T>::value)
 		delete[] pp;
 	else if (pp != nullptr)
-		delete[] (pp - sizeof(size_t));
+		delete[] (pp - __object_header_size);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -186,14 +194,14 @@ template <typename T>
 inline void tpie_deallocate_raw(T * p) {
 	if (p == nullptr) return;
 	uint8_t * pp = reinterpret_cast<uint8_t *>(p);
-	delete[] (std::is_polymorphic<T>::value ? pp - sizeof(size_t) : pp);
+	delete[] (std::is_polymorphic<T>::value ? pp - __object_header_size : pp);
 }
 
 template <typename T>
 inline size_t tpie_size(T * p) {
 	if(!std::is_polymorphic<T>::value) return sizeof(T);
 	uint8_t * x = ptr_cast<uint8_t *>(p);
-	return * reinterpret_cast<size_t *>(x - sizeof(size_t));
+	return * reinterpret_cast<size_t *>(x - __object_header_size);
 }
 
 
-- 
2.43.0


From 7808c8e7ba35f7db082120dcb4364d34f7cfbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:23 +0000
Subject: [PATCH 079/103] fix: an array that cannot be allocated or filled must
 become empty, not keep freed memory

---
 tpie/array.h | 172 +++++++++++++++++++++++++++++----------------------
 1 file changed, 99 insertions(+), 73 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 54843b0..5efaea4 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -436,9 +436,9 @@ public:
 	/// \brief Construct a copy of another array.
 	/// \param other The array to copy.
 	/////////////////////////////////////////////////////////
-	array(const array & other): m_elements(0), m_size(other.m_size), m_tss_used(false), m_allocator(other.m_allocator) {
+	array(const array & other): m_elements(0), m_size(0), m_tss_used(false), m_allocator(other.m_allocator) {
 		if (other.size() == 0) return;
-		alloc_copy(other.m_elements);
+		alloc_copy(other.size(), other.m_elements);
 	}
 
 	/////////////////////////////////////////////////////////
@@ -457,20 +457,20 @@ public:
 
 	array(const array_view_base<T> & view)
 		: m_elements(0)
-		, m_size(view.size())
+		, m_size(0)
 		, m_tss_used(false)
 	{
 		if (view.size() == 0) return;
-		alloc_copy(&*view.begin());
+		alloc_copy(view.size(), &*view.begin());
 	}
 
 	array(const array_view_base<const T> & view)
 		: m_elements(0)
-		, m_size(view.size())
+		, m_size(0)
 		, m_tss_used(false)
 	{
 		if (view.size() == 0) return;
-		alloc_copy(&*view.begin());
+		alloc_copy(view.size(), &*view.begin());
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -491,9 +491,7 @@ public:
 	void resize(size_t size, const T & elm) {
 		if (size != m_size) {
 			destruct_and_dealloc();
-			m_size = size;
-
-			alloc_fill(elm);
+			alloc_fill(size, elm);
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -520,8 +518,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void resize(size_t s) {
 		destruct_and_dealloc();
-		m_size = s;
-		alloc_dfl();
+		alloc_dfl(s);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -549,34 +546,37 @@ private:
 	friend struct bits::allocator_usage<T, Allocator>;
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and copy construct contents with
+	/// \brief Allocate elements and copy construct contents with
 	/// elements from other array.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
-	/// \param copy_from  Source elements in [copy_from, copy_from+m_size)
+	/// Precondition: m_elements == null pointer; m_size == 0;
+	/// Effect: Allocates the m_elements buffer and sets m_size.
+	/// \param size  Number of elements
+	/// \param copy_from  Source elements in [copy_from, copy_from+size)
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_copy(const T * copy_from) { bits::allocator_usage<T, Allocator>::alloc_copy(*this, copy_from); }
+	void alloc_copy(size_t size, const T * copy_from) { bits::allocator_usage<T, Allocator>::alloc_copy(*this, size, copy_from); }
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and copy construct contents with
+	/// \brief Allocate elements and copy construct contents with
 	/// element.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
+	/// Precondition: m_elements == null pointer; m_size == 0;
+	/// Effect: Allocates the m_elements buffer and sets m_size.
+	/// \param size  Number of elements
 	/// \param elm  Element to pass to the copy constructor
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_fill(const T & elm) { bits::allocator_usage<T, Allocator>::alloc_fill(*this, elm); }
+	void alloc_fill(size_t size, const T & elm) { bits::allocator_usage<T, Allocator>::alloc_fill(*this, size, elm); }
 
 	///////////////////////////////////////////////////////////////////////////
-	/// \brief Allocate m_size elements and default construct contents.
-	/// Precondition: m_elements == null pointer; m_size == no. of elements;
-	/// Effect: Allocates the m_elements buffer.
+	/// \brief Allocate elements and default construct contents.
+	/// Precondition: m_elements == null pointer; m_size == 0;
+	/// Effect: Allocates the m_elements buffer and sets m_size.
+	/// \param size  Number of elements
 	///////////////////////////////////////////////////////////////////////////
-	void alloc_dfl() { bits::allocator_usage<T, Allocator>::alloc_dfl(*this); }
+	void alloc_dfl(size_t size) { bits::allocator_usage<T, Allocator>::alloc_dfl(*this, size); }
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Destruct and deallocate elements.
 	/// Precondition: m_elements == pointer to buffer of m_size elements;
-	/// Effect: m_elements == null pointer; does not modify m_size
+	/// Effect: m_elements == null pointer; m_size == 0
 	///////////////////////////////////////////////////////////////////////////
 	void destruct_and_dealloc() { bits::allocator_usage<T, Allocator>::destruct_and_dealloc(*this); }
 
@@ -591,81 +591,107 @@ namespace bits {
 
 template <typename T>
 struct allocator_usage<T, allocator<T> > {
-	static void alloc_copy(array<T, allocator<T> > & host, const T * copy_from) {
-		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
-		host.m_tss_used = true;
-
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
-	}
-
-	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
-		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
-		host.m_tss_used = true;
-
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-		
-		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+	static void alloc_copy(array<T, allocator<T> > & host, size_t size, const T * copy_from) {
+		trivial_same_size<T> * buffer = size ? tpie_new_array<trivial_same_size<T> >(size) : 0;
+		T * elements = reinterpret_cast<T*>(buffer);
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+size, elements+0);
+		} catch (...) {
+			tpie_delete_array(buffer, size);
+			throw;
+		}
+		adopt(host, elements, size, true);
+	}
+
+	static void alloc_fill(array<T, allocator<T> > & host, size_t size, const T & elm) {
+		trivial_same_size<T> * buffer = size ? tpie_new_array<trivial_same_size<T> >(size) : 0;
+		T * elements = reinterpret_cast<T*>(buffer);
+		try {
+			// call copy constructors manually
+			std::uninitialized_fill(elements+0, elements+size, elm);
+		} catch (...) {
+			tpie_delete_array(buffer, size);
+			throw;
+		}
+		adopt(host, elements, size, true);
 	}
 
-	static void alloc_dfl(array<T, allocator<T> > & host) {
-		host.m_elements = host.m_size ? tpie_new_array<T>(host.m_size) : 0;
-		host.m_tss_used = false;
-		
-		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
+	static void alloc_dfl(array<T, allocator<T> > & host, size_t size) {
+		adopt(host, size ? tpie_new_array<T>(size) : 0, size, false);
 	}
 
 	static void destruct_and_dealloc(array<T, allocator<T> > & host) {
+		T * elements = host.m_elements;
+		size_t size = host.m_size;
+		host.m_elements = 0;
+		host.m_size = 0;
+
 		if (host.m_allocator.bucket)
-			host.m_allocator.bucket->count -= sizeof(T) * host.m_size;
+			host.m_allocator.bucket->count -= sizeof(T) * size;
 		
 		if (!host.m_tss_used) {
 			// calls destructors
-			tpie_delete_array(host.m_elements, host.m_size);
+			tpie_delete_array(elements, size);
 			return;
 		}
 
 		// call destructors manually
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_elements[i].~T();
+		for (size_t i = 0; i < size; ++i) {
+			elements[i].~T();
 		}
-		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+		tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(elements), size);
+	}
+
+private:
+	static void adopt(array<T, allocator<T> > & host, T * elements, size_t size, bool tss_used) {
+		host.m_elements = elements;
+		host.m_size = size;
+		host.m_tss_used = tss_used;
+
+		if (host.m_allocator.bucket)
+			host.m_allocator.bucket->count += sizeof(T) * size;
 	}
 };
 
 template <typename T, typename Allocator>
 struct allocator_usage {
-	static void alloc_copy(array<T, Allocator> & host, const T * copy_from) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, copy_from[i]);
-		}
+	static void alloc_copy(array<T, Allocator> & host, size_t size, const T * copy_from) {
+		alloc(host, size, [&](T * p, size_t i) { host.m_allocator.construct(p, copy_from[i]); });
 	}
 
-	static void alloc_fill(array<T, Allocator> & host, const T & elm) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, elm);
-		}
+	static void alloc_fill(array<T, Allocator> & host, size_t size, const T & elm) {
+		alloc(host, size, [&](T * p, size_t) { host.m_allocator.construct(p, elm); });
 	}
 
-	static void alloc_dfl(array<T, Allocator> & host) {
-		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i);
-		}
+	static void alloc_dfl(array<T, Allocator> & host, size_t size) {
+		alloc(host, size, [&](T * p, size_t) { host.m_allocator.construct(p); });
 	}
 
 	static void destruct_and_dealloc(array<T, Allocator> & host) {
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.destroy(host.m_elements+i);
+		T * elements = host.m_elements;
+		size_t size = host.m_size;
+		host.m_elements = 0;
+		host.m_size = 0;
+		for (size_t i = 0; i < size; ++i) {
+			host.m_allocator.destroy(elements+i);
+		}
+		host.m_allocator.deallocate(elements, size);
+	}
+
+private:
+	template <typename Construct>
+	static void alloc(array<T, Allocator> & host, size_t size, Construct construct) {
+		T * elements = size ? host.m_allocator.allocate(size) : 0;
+		size_t i = 0;
+		try {
+			for (; i < size; ++i) construct(elements+i, i);
+		} catch (...) {
+			while (i > 0) host.m_allocator.destroy(elements + --i);
+			host.m_allocator.deallocate(elements, size);
+			throw;
 		}
-		host.m_allocator.deallocate(host.m_elements, host.m_size);
+		host.m_elements = elements;
+		host.m_size = size;
 	}
 };
 
-- 
2.43.0


From b40b5d0c76c4a6d93eef79940254f2c818221569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 080/103] fix: a container whose resize runs out of memory must
 be empty

---
 tpie/internal_queue.h             | 2 +-
 tpie/internal_stack_vector_base.h | 2 +-
 tpie/packed_array.h               | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tpie/internal_queue.h b/tpie/internal_queue.h
index c6258b5..89310e2 100644
--- a/tpie/internal_queue.h
+++ b/tpie/internal_queue.h
@@ -68,7 +68,7 @@ public:
 	///
 	/// \param size The number of elements to contain.
 	///////////////////////////////////////////////////////////////////////////
-	void resize(size_t size=0) {m_elements.resize(size); m_first = m_last = 0;}
+	void resize(size_t size=0) {m_first = m_last = 0; m_elements.resize(size);}
 	
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Return the item that has been in the queue for the longest time.
diff --git a/tpie/internal_stack_vector_base.h b/tpie/internal_stack_vector_base.h
index 46de428..0bd2507 100644
--- a/tpie/internal_stack_vector_base.h
+++ b/tpie/internal_stack_vector_base.h
@@ -74,7 +74,7 @@ public:
 	///
 	/// \param size  New capacity of the structure.
 	///////////////////////////////////////////////////////////////////////////
-	void resize(size_t size=0) {m_elements.resize(size); m_size=0;}
+	void resize(size_t size=0) {m_size=0; m_elements.resize(size);}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Check if no elements are currently pushed to the structure.
diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 38226b9..fa53007 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -362,8 +362,10 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		m_elements = s?tpie_new_array<storage_type>(words(s)):nullptr;
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From c3ad9b1d4dc845032eee6473ffec07b27e592ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:22 +0000
Subject: [PATCH 081/103] fix: tpie_delete through a second base class must
 free the start of the object

---
 tpie/memory.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index e22c4dc..e1b934f 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -176,22 +176,14 @@ inline T * tpie_allocate() {
 	return reinterpret_cast<T*>(x + __object_header_size);
 }
 
-template <typename T>
-inline void tpie_deallocate(T * p) {
-	uint8_t * pp = ptr_cast<uint8_t *>(p);
-	if(!std::is_polymorphic<T>::value)
-		delete[] pp;
-	else if (pp != nullptr)
-		delete[] (pp - __object_header_size);
-}
-
 ///////////////////////////////////////////////////////////////////////////////
 /// \internal
-/// Free memory from tpie_allocate in which no object lives. Its contents may
-/// not be used to find the address of the memory, unlike in tpie_deallocate.
+/// Free memory from tpie_allocate in which no object lives.
+/// \param p What tpie_allocate returned. The contents of the memory may not be
+/// used to find its address.
 ///////////////////////////////////////////////////////////////////////////////
 template <typename T>
-inline void tpie_deallocate_raw(T * p) {
+inline void tpie_deallocate(T * p) {
 	if (p == nullptr) return;
 	uint8_t * pp = reinterpret_cast<uint8_t *>(p);
 	delete[] (std::is_polymorphic<T>::value ? pp - __object_header_size : pp);
@@ -260,7 +252,7 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate_raw(data);
+		tpie_deallocate(data);
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
@@ -305,8 +297,10 @@ template <typename T>
 inline void tpie_delete(T * p) throw() {
 	if (p == 0) return;
 	get_memory_manager().register_deallocation(tpie_size(p), typeid(*p));
+	// The start of the object cannot be found once it is destroyed.
+	T * start = ptr_cast<T *>(p);
 	p->~T();
-	tpie_deallocate(p);
+	tpie_deallocate(start);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4e58626edc91e34ee74e1f5a5655d11778a185bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 082/103] fix: an uncompressed stream must free its file
 accessor

---
 tpie/file_stream_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 82f771a..2c47ca6 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -100,6 +100,7 @@ protected:
 		} catch (const std::exception & e) {
 			log_error() << "Failed to close a stream: " << e.what() << std::endl;
 		}
+		delete m_fileAccessor;
 	}
 
 	void swap(file_stream_base & other) {
-- 
2.43.0


From bcfa6fa608afe927319c0e2f6941aa8c5a65d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 083/103] fix: removing a temporary file must not allocate
 memory

---
 tpie/tempname.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 20c86ff..7e9300b 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -303,10 +303,9 @@ temp_file_inner::~temp_file_inner() {
 	if (m_path.empty() || m_persist)
 		return;
 
-	// Must not throw; if the file cannot be removed now,
-	// it is removed with the temporary directory.
-	std::error_code c;
-	std::filesystem::remove(m_path, c);
+	// Must not throw (nor allocate memory); if the file cannot be
+	// removed now, it is removed with the temporary directory.
+	std::remove(m_path.c_str());
 	update_recorded_size(0);
 }
 
-- 
2.43.0


From 05c8da803e405371aaff28404e761fed6e12db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 084/103] fix: a B-tree must be intact when an insertion runs
 out of memory

---
 tpie/btree/btree.h | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 4268174..c7fe2b6 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -161,12 +161,11 @@ private:
 	}
 
 	template <typename CT, typename NT>
-	NT split_and_insert(CT c, NT left, size_t index) {
+	NT split_and_insert(CT c, NT left, NT right, size_t index) {
 		tp_assert(m_state.store().count(left) == max_size(left), "Node not full");
 		
 		size_t left_size = max_size(left)/2;
 		size_t right_size = max_size(left)-left_size;
-		NT right = m_state.store().create(left);
 		for (size_t i=0; i < right_size; ++i)
 			m_state.store().move(left, left_size+i, right, i);
 		m_state.store().set_count(left, left_size);
@@ -284,8 +283,7 @@ public:
 
 
 	template <typename NT>
-	void createNewRoot(NT left, NT right) {
-			internal_type i = m_state.store().create_internal();
+	void createNewRoot(internal_type i, NT left, NT right) {
 			m_state.store().set_count(i, 2);
 			m_state.store().set(i, 0, left);
 			m_state.store().set(i, 1, right);
@@ -300,8 +298,6 @@ public:
 	 */
 	template <typename X=enab>
 	void insert_before(value_type v, const iterator & itr, enable<X, !is_static> =enab()) {
-		m_state.store().set_size(m_state.store().size() + 1);
-
 		// Handle the special case of the empty tree
 		if (m_state.store().height() == 0) {
 			leaf_type n = m_state.store().create_leaf();
@@ -309,6 +305,7 @@ public:
 			m_state.store().set(n, 0, v);
 			m_state.store().set_height(1);
 			m_state.store().set_root(n);
+			m_state.store().set_size(m_state.store().size() + 1);
 			return;
 		}
 
@@ -318,6 +315,7 @@ public:
 		
 		//If there is room in the leaf
 		if (m_state.store().count(itr.m_leaf) != m_state.store().max_leaf_size()) {
+			m_state.store().set_size(m_state.store().size() + 1);
 			insert_part(itr.m_leaf, v, index);
 			if (level != 0) {
 				augment(itr.m_leaf, path[level-1]);
@@ -326,12 +324,35 @@ public:
 			return;
 		}
 		
+		// All new nodes are created before the tree is changed,
+		// such that the tree is intact if one of them cannot be created
+		auto full = level;
+		while (full != 0 && m_state.store().count(path[full-1]) == m_state.store().max_internal_size()) --full;
+		std::vector<internal_type> spare;
+		spare.reserve(level - full + 1);
+		leaf_type l2 = m_state.store().create_leaf();
+		try {
+			for (auto i = full; i < level; ++i)
+				spare.push_back(m_state.store().create_internal());
+			if (full == 0)
+				spare.push_back(m_state.store().create_internal());
+		} catch (...) {
+			while (!spare.empty()) {
+				m_state.store().destroy(spare.back());
+				spare.pop_back();
+			}
+			m_state.store().destroy(l2);
+			throw;
+		}
+		auto next = spare.begin();
+		m_state.store().set_size(m_state.store().size() + 1);
+
 		// We split the leaf
-		leaf_type l2 = split_and_insert(v, itr.m_leaf, index);
+		split_and_insert(v, itr.m_leaf, l2, index);
 		
 		// If the leaf was a root leaf we create a new root
 		if (level == 0) {
-			createNewRoot(itr.m_leaf, l2);
+			createNewRoot(*next, itr.m_leaf, l2);
 			return;
 		}
 		--level;
@@ -346,7 +367,7 @@ public:
 			return;
 		}
 
-		internal_type n2 = split_and_insert(l2, path[level], index);
+		internal_type n2 = split_and_insert(l2, path[level], *next++, index);
 		while (level != 0) {
 			--level;
 			index = m_state.store().index(path[level+1], path[level]) + 1;
@@ -356,11 +377,11 @@ public:
 				augment_path(path, level);
 				return;
 			}
-			n2 = split_and_insert(n2, path[level], index);
+			n2 = split_and_insert(n2, path[level], *next++, index);
 		}
 		
 		//We need a new root
-		createNewRoot(path[0], n2);
+		createNewRoot(*next, path[0], n2);
 	}
 
 	
-- 
2.43.0


From d8191ec863bd19c776317d7a2c1c0ccc7037af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 085/103] fix: a B-tree whose block collection cannot be
 created must not terminate

---
 tpie/btree/external_store_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/external_store_base.cpp b/tpie/btree/external_store_base.cpp
index 77dc431..6566e24 100644
--- a/tpie/btree/external_store_base.cpp
+++ b/tpie/btree/external_store_base.cpp
@@ -60,7 +60,8 @@ external_store_base::external_store_base(external_store_base&& other) noexcept
 external_store_base::~external_store_base() {
 	if (!m_moved) {
 		tpie::file_accessor::raw_file_accessor m_accessor;
-		m_accessor.try_open_rw(m_path);
+		// There is no file if the block collection could not be created
+		if (!m_accessor.try_open_rw(m_path)) return;
 		stream_size_type size = sizeof(size_t) * 2 + sizeof(blocks::block_handle);
 		stream_size_type pos = m_accessor.file_size_i();
 		m_accessor.truncate_i(pos + size);
-- 
2.43.0


From b278ce140879a44512b24c0d613dba96428a3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 086/103] fix: a pipeline that fails must free the items held
 by an internal reverser or buffer

---
 tpie/pipelining/internal_buffer.h | 12 +++++++-----
 tpie/pipelining/reverse.h         | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/tpie/pipelining/internal_buffer.h b/tpie/pipelining/internal_buffer.h
index e07efec..a35f87a 100644
--- a/tpie/pipelining/internal_buffer.h
+++ b/tpie/pipelining/internal_buffer.h
@@ -34,6 +34,7 @@ namespace bits {
 
 template <typename T>
 class internal_buffer_pull_output_t: public node {
+	tpie::unique_ptr<internal_queue<T> > * m_queue_ptr;
 	internal_queue<T> * m_queue;
 public:
 	typedef T item_type;
@@ -45,7 +46,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = fetch<internal_queue<T> *>("queue");
+		m_queue_ptr = fetch<tpie::unique_ptr<internal_queue<T> > *>("queue");
+		m_queue = m_queue_ptr->get();
 	}
 
 	bool can_pull() const {
@@ -59,7 +61,7 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_queue);
+		m_queue_ptr->reset();
 		m_queue=NULL;
 	}
 };
@@ -77,8 +79,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = tpie::tpie_new<internal_queue<item_type> >(size);
-		forward("queue", m_queue, 1);
+		m_queue.reset(tpie::tpie_new<internal_queue<item_type> >(size));
+		forward("queue", &m_queue, 1);
 	}
 
 	void push(const T & item) {
@@ -87,7 +89,7 @@ public:
 	}
 
 private:
-	internal_queue<item_type> * m_queue;
+	tpie::unique_ptr<internal_queue<item_type> > m_queue;
 	size_t size;
 };
 
diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index 54c76b8..f4aeae4 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -83,8 +83,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = tpie_new<std::stack<item_type> >();
-		forward("stack", m_stack, 1);
+		m_stack.reset(tpie_new<std::stack<item_type> >());
+		forward("stack", &m_stack, 1);
 	}
 
 	///////////////////////////////////////////////////////////////////////////////
@@ -94,7 +94,7 @@ public:
 		m_stack->push(t);
 	}
 private:
-	std::stack<item_type> * m_stack;
+	tpie::unique_ptr<std::stack<item_type> > m_stack;
 	std::shared_ptr<node> m_output;
 };
 
@@ -159,7 +159,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 		set_steps(m_stack->size());
 	}
@@ -174,10 +175,11 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
 	dest_t dest;
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
@@ -240,7 +242,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 	}
 
@@ -261,9 +264,10 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
 	}
 private:
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
-- 
2.43.0


From 9f28086f7f1400e330201bac46b90d0b399ee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 087/103] fix: running out of memory must not make a
 serialization sorter open a wrong file

---
 tpie/serialization_sorter.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 361cafd..aadaa32 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -285,9 +285,8 @@ class file_handler {
 
 	std::string run_file(size_t physicalIndex) {
 		if (m_tempDir.size() == 0) throw exception("run_file: temp dir is the empty string");
-		std::stringstream ss;
-		ss << m_tempDir << '/' << physicalIndex << ".tpie";
-		return ss.str();
+		// Not with a stringstream, which would lose a part of the name when memory runs out
+		return m_tempDir + '/' + std::to_string(physicalIndex) + ".tpie";
 	}
 
 public:
-- 
2.43.0


From 896a3b81a6ca15c3d833f29e40ceb5a9ff0e926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:50 +0000
Subject: [PATCH 088/103] fix: a stream that runs out of memory must not lose
 its buffer

---
 tpie/compressed/buffer.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index cb03924..8ca6327 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -273,22 +273,21 @@ public:
 			if (target != m_buffers.end()) return target->second;
 
 			// If not found, wait for a free buffer to become available.
-			buffer_t b;
+			buffermapit i;
 			while (true) {
-				buffermapit i = m_buffers.begin();
+				i = m_buffers.begin();
 				while (i != m_buffers.end() && !i->second.unique()) ++i;
-				if (i == m_buffers.end()) {
-					compressor().wait_for_request_done(lock);
-					continue;
-				} else {
-					b.swap(i->second);
-					m_buffers.erase(i);
-					break;
-				}
+				if (i != m_buffers.end()) break;
+				compressor().wait_for_request_done(lock);
 			}
 
+			// Give the map node a new key instead of inserting a new node,
+			// which may fail and would then lose the buffer.
+			buffermap_t::node_type n = m_buffers.extract(i);
+			n.key() = blockNumber;
+			buffer_t b = n.mapped();
 			b->reset();
-			m_buffers.insert(std::make_pair(blockNumber, b));
+			m_buffers.insert(std::move(n));
 			clean();
 			return b;
 		} else {
@@ -315,7 +314,12 @@ public:
 			if (i == m_buffers.end()) {
 				// No free found: allocate new buffer.
 				if (m_ownBuffers < OWN_BUFFERS) {
-					target->second = allocate_own_buffer();
+					try {
+						target->second = allocate_own_buffer();
+					} catch (...) {
+						m_buffers.erase(target);
+						throw;
+					}
 				} else if (can_take_shared_buffer()) {
 					target->second = take_shared_buffer();
 				} else {
@@ -402,8 +406,9 @@ private:
 	}
 
 	buffer_t allocate_own_buffer() {
+		buffer_t b = the_stream_buffer_pool().allocate_own_buffer();
 		++m_ownBuffers;
-		return the_stream_buffer_pool().allocate_own_buffer();
+		return b;
 	}
 
 	compressor_thread & compressor() {
-- 
2.43.0


From 7800543089b54303dbd41ee2710f7aa6df319b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:04 +0000
Subject: [PATCH 089/103] fix: destroying a serialization sorter must not throw
 when memory runs out

---
 tpie/serialization_sorter.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index aadaa32..f472254 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -308,8 +308,12 @@ public:
 	~file_handler() {
 		reset();
 		if (!m_tempDir.empty()) {
-			std::error_code ec;
-			std::filesystem::remove(m_tempDir, ec);
+			// Neither must throw; the directory is removed when TPIE is finished if not here
+			try {
+				std::error_code ec;
+				std::filesystem::remove(m_tempDir, ec);
+			} catch (const std::bad_alloc &) {
+			}
 		}
 	}
 
@@ -414,8 +418,12 @@ public:
 		}
 		log_debug() << "Remove " << m_fileOffset << " through " << m_nextFileOffset << std::endl;
 		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i) {
-			std::error_code ec;
-			std::filesystem::remove(run_file(i), ec);
+			try {
+				std::error_code ec;
+				std::filesystem::remove(run_file(i), ec);
+			} catch (const std::bad_alloc &) {
+				// The file is removed with the temporary directory
+			}
 		}
 		increment_temp_file_usage(-m_usage);
 		m_usage = 0;
-- 
2.43.0


From 2bd5f15924992f0d1b8d61128bc6856bf19ab46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:02 +0000
Subject: [PATCH 090/103] fix: a merge heap that cannot be allocated must free
 what it has allocated

---
 tpie/pq_merge_heap.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpie/pq_merge_heap.inl b/tpie/pq_merge_heap.inl
index 3dbb702..bb9c01a 100644
--- a/tpie/pq_merge_heap.inl
+++ b/tpie/pq_merge_heap.inl
@@ -22,7 +22,12 @@ template <typename T, typename Comparator>
 pq_merge_heap<T, Comparator>::pq_merge_heap(memory_size_type elements) {
 	maxsize = elements;
 	heap = tpie_new_array<T>(elements);
-	runs = tpie_new_array<run_type>(elements);
+	try {
+		runs = tpie_new_array<run_type>(elements);
+	} catch (...) {
+		tpie_delete_array(heap, elements);
+		throw;
+	}
 	m_size = 0;
 }
 
-- 
2.43.0


From 2a61019546c78a04352efad1bc7565da5b5b568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 091/103] fix: a block that cannot be added to a block cache
 must be freed

---
 tpie/blocks/block_collection_cache.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index 1f0f40b..0269a29 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -45,7 +45,12 @@ block_collection_cache::~block_collection_cache() {
 block_handle block_collection_cache::get_free_block() {
 	prepare_cache();
 	block_handle h = m_collection.get_free_block();
-	add_to_cache(h, tpie_new<block>(m_blockSize), true);
+	try {
+		add_to_cache(h, tpie_new<block>(m_blockSize), true);
+	} catch (...) {
+		m_collection.free_block(h);
+		throw;
+	}
 	return h;
 }
 
@@ -84,11 +89,13 @@ void block_collection_cache::prepare_cache() {
 void block_collection_cache::add_to_cache(block_handle handle, block * b, bool dirty) {
 	tp_assert(m_curSize < m_maxSize, "must not be full");
 
-	m_blockList.push_back(handle);
-	block_list_t::iterator list_pos = m_blockList.end();
-	--list_pos;
+	tpie::unique_ptr<block> owner(b);
+	block_list_t node(1, handle);
+	block_list_t::iterator list_pos = node.begin();
 
 	m_blockMap[handle] = block_information_t(b, list_pos, dirty);
+	m_blockList.splice(m_blockList.end(), node);
+	owner.release();
 	++m_curSize;
 }
 
@@ -115,7 +122,7 @@ block * block_collection_cache::read_block(block_handle handle) {
 		tpie_delete(cache_b);
 		throw;
 	}
-	add_to_cache(handle, cache_b, false);
+	add_to_cache(handle, cache_b, false); // takes the block, even if it fails
 
 	return cache_b;
 }
-- 
2.43.0


From e21e601d964263726f97c04f32507b373812999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 092/103] fix: no element fits in less memory than an empty
 data structure takes

---
 tpie/util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/util.h b/tpie/util.h
index 9ab3f1f..06c977c 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -116,6 +116,8 @@ struct linear_memory_base {
 	/// \return The number of elements that will fit in the structure
 	///////////////////////////////////////////////////////////////////////////
 	static constexpr memory_size_type memory_fits(memory_size_type memory) noexcept {
+		// Not even an empty structure may fit
+		if (memory < child_t::memory_overhead()) return 0;
 		return static_cast<memory_size_type>(
 			floor((memory - child_t::memory_overhead()) / child_t::memory_coefficient()));
 	}
-- 
2.43.0


From 4f81eeefbe8f913712f0d621f859e9f73b330cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 093/103] fix: file streams must not be copyable

A copy shared the buffers and the file of the original and freed them again.
---
 tpie/compressed/stream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index 69efb41..20200f4 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -80,6 +80,10 @@ class TPIE_EXPORT compressed_stream_base {
 public:
 	friend class compressed_stream_base_p;
 
+	// A copy would share the buffers and the file of the original.
+	compressed_stream_base(const compressed_stream_base &) = delete;
+	compressed_stream_base & operator=(const compressed_stream_base &) = delete;
+
 	static const file_stream_base::offset_type beginning = file_stream_base::beginning;
 	static const file_stream_base::offset_type end = file_stream_base::end;
 	static const file_stream_base::offset_type current = file_stream_base::current;
-- 
2.43.0


From f413f7df0d661a531cf2bc7951611be28067ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 094/103] fix: writing a temporary serialization stream anew
 must free its temporary space

---
 tpie/serialization_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 61470c1..11a592a 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -186,6 +186,8 @@ void serialization_writer_base::open_inner(std::string path, bool reverse) {
 	m_failed = false;
 	m_blocksWritten = 0;
 	m_size = 0;
+	if (m_tempFile)
+		m_tempFile->update_recorded_size(m_size);
 
 	bits::serialization_header header(m_fileAccessor);
 	header.set_reverse(reverse);
-- 
2.43.0


From fe8bdfd9c3836afead9333d663cc76bc5a6fd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 095/103] fix: opening a temporary file for writing only must
 free its temporary space

---
 tpie/file_base_crtp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/file_base_crtp.h b/tpie/file_base_crtp.h
index 9cd4cc5..7e91319 100644
--- a/tpie/file_base_crtp.h
+++ b/tpie/file_base_crtp.h
@@ -238,6 +238,9 @@ public:
 		self().close();
 		m_tempFile=&file;
 		self().open_inner(m_tempFile->path(), accessType, userDataSize, cacheHint);
+		// The previous contents of the file are gone.
+		if (accessType == access_write)
+			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 	}
 
 	/////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1db1564e4a407a462d50ced48b15a89efacbeaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 096/103] fix: user counters that do not exist must not be read
 or written

---
 tpie/stats.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stats.cpp b/tpie/stats.cpp
index 1c36d70..da11665 100644
--- a/tpie/stats.cpp
+++ b/tpie/stats.cpp
@@ -64,11 +64,11 @@ namespace tpie {
 	}
 
 	stream_size_type get_user(size_t i) {
-		return (i < sizeof(user)) ? user[i].load() : 0;
+		return (i < sizeof(user)/sizeof(user[0])) ? user[i].load() : 0;
 	}
 
 	void increment_user(size_t i, stream_size_type delta) {
-		if (i < sizeof(user)) user[i].fetch_add(delta);
+		if (i < sizeof(user)/sizeof(user[0])) user[i].fetch_add(delta);
 	}
 }  //  tpie namespace
 
-- 
2.43.0


From acf8044e5aa16ff349617d98443707e5fb9df09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:59 +0000
Subject: [PATCH 097/103] fix: falling back to a path for temporary files must
 use that path

---
 tpie/tempname.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7e9300b..ca96b6c 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -265,6 +265,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
@@ -272,6 +273,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
 		default_path = path; 
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From e40ae4acd87f41e6fc299c1a669a660d7f4d5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:38 +0000
Subject: [PATCH 098/103] fix: a fraction database that was never changed must
 not be saved

---
 tpie/fractional_progress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index e485482..8e63500 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -40,7 +40,7 @@ public:
 	bool dirty;
 	const bool capture;
 
-	inline fraction_db_impl(bool capture) : capture(capture) {
+	inline fraction_db_impl(bool capture) : dirty(false), capture(capture) {
 	}
 
 	void update(std::string name, float frac, stream_size_type n) {
-- 
2.43.0


From e472b6b778561bd698192f081ee2f4b668001ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:53 +0000
Subject: [PATCH 099/103] fix: the fraction database must be freed when only
 capturing was asked for

---
 tpie/tpie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tpie.cpp b/tpie/tpie.cpp
index bba9a2e..3a3a2ec 100644
--- a/tpie/tpie.cpp
+++ b/tpie/tpie.cpp
@@ -69,7 +69,7 @@ TPIE_EXPORT void tpie_finish(flags<subsystem> subsystems) {
 	if (subsystems & JOB_MANAGER)
 		finish_job();
 
-    if (subsystems & PROGRESS)  {
+	if (subsystems & (PROGRESS | CAPTURE_FRACTIONS)) {
 		finish_execution_time_db();
 		finish_fraction_db();
 	}
-- 
2.43.0


From 7caa7735edc0b0068a3492aebd4bfed2e36bc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 100/103] fix: a job pool whose threads cannot all be started
 must not leave any behind

---
 tpie/job.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index f4c2136..caedf7e 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -49,11 +49,17 @@ public:
 	void init_pool(size_t threads) {
 		m_kill_job_pool = false;
 		m_thread_pool.resize(threads);
-		for (size_t i = 0; i < threads; ++i) {
-			std::function<void()> f(worker);
-			std::thread t(f);
-			// thread is move-constructible
-			m_thread_pool[i].swap(t);
+		try {
+			for (size_t i = 0; i < threads; ++i) {
+				std::function<void()> f(worker);
+				std::thread t(f);
+				// thread is move-constructible
+				m_thread_pool[i].swap(t);
+			}
+		} catch (...) {
+			// Stop those that were started; jobs are refused until the pool is set up again.
+			shutdown_pool();
+			throw;
 		}
 	}
 
@@ -66,8 +72,9 @@ public:
 		m_has_data.notify_all();
 		lock.unlock();
 		for (size_t i = 0; i < m_thread_pool.size(); ++i) {
-			m_thread_pool[i].join();
+			if (m_thread_pool[i].joinable()) m_thread_pool[i].join();
 		}
+		m_thread_pool.resize(0);
 	}
 
 	size_t worker_count() const noexcept {
@@ -121,7 +128,13 @@ memory_size_type default_worker_count() {
 void init_job() {
 	the_job_manager = tpie_new<job_manager>();
 	memory_size_type workers = default_worker_count();
-	the_job_manager->init_pool(workers);
+	try {
+		the_job_manager->init_pool(workers);
+	} catch (...) {
+		tpie_delete(the_job_manager);
+		the_job_manager = 0;
+		throw;
+	}
 }
 
 void finish_job() {
-- 
2.43.0


From 0a47e63a9b53eb1d8b3e1f7e40843ee44d181231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 101/103] fix: a job that was refused must remain idle

---
 tpie/job.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index caedf7e..db46ff3 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -173,10 +173,9 @@ void job::enqueue(job * parent) {
 	if (m_state != job_idle)
 		throw tpie::exception("Bad job state");
 
-	m_state = job_enqueued;
-
 	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
 	if (the_job_manager->m_kill_job_pool) throw job_manager_exception();
+	m_state = job_enqueued;
 	m_parent = parent;
 	m_dependencies = 1;
 	if (m_parent) ++m_parent->m_dependencies;
-- 
2.43.0


From 2f647d76cb9a81881099e0ffe40c070288cd771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 102/103] fix: the stream buffer pool must be freed when the
 compressor thread cannot be started

---
 tpie/tpie.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpie/tpie.cpp b/tpie/tpie.cpp
index 3a3a2ec..2f67a4c 100644
--- a/tpie/tpie.cpp
+++ b/tpie/tpie.cpp
@@ -56,7 +56,12 @@ TPIE_EXPORT void tpie_init(flags<subsystem> subsystems) {
 
 	if (subsystems & STREAMS) {
 		init_stream_buffer_pool();
-		init_compressor();
+		try {
+			init_compressor();
+		} catch (...) {
+			finish_stream_buffer_pool();
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From a40ee96d73b6311150d58936bdb3db566b30d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 103/103] fix: the limit on open files must not wrap around
 when the process may open few

---
 tpie/file_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/file_manager.cpp b/tpie/file_manager.cpp
index 380a00d..b550ce7 100644
--- a/tpie/file_manager.cpp
+++ b/tpie/file_manager.cpp
@@ -66,7 +66,8 @@ void init_file_manager() {
 	const size_t reserved_files = 42;
 
 	fm = new file_manager();
-	fm->set_limit(get_maximum_open_files() - reserved_files);
+	const size_t max_files = get_maximum_open_files();
+	fm->set_limit(max_files > reserved_files ? max_files - reserved_files : 1);
 }
 
 void finish_file_manager() {
-- 
2.43.0

