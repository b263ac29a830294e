From 921d83b51a291e33d1da8274443a6239a06fef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 001/108] fix: accept moving data up to the end of an unbounded
 Buffer

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..fb20f9d 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From b52a4210b06e2c88973cb0bcaaaa08e1137b0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 002/108] fix: Fifo index overflow when doing bulk operations

---
 include/libstored/fifo.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fb20f9d..5e5f703 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,12 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Note that rp + count may not fit in pointer.
+		size_t rp_next = (size_t)rp + count;
+		if(wp < rp_next && rp_next >= m_buffer.size())
+			rp_next -= m_buffer.size();
+
+		rp = (pointer)rp_next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -713,9 +716,12 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Note that wp + count may not fit in pointer.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From 6f802526969160c56f1751fbe04fd8f7afcdf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 003/108] fix: Buffer set/move of trivially copyable types
 larger than a byte

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 5e5f703..552c18d 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,13 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(*x));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src], len * sizeof(buffer[src]));
 	}
 };
 
-- 
2.43.0


From f9cfc10e069097191de1c2e62e2c48a611f98dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 004/108] fix: MessageFifo corruption when zero-length messages
 are queued

---
 include/libstored/fifo.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 552c18d..9d0a8fc 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -998,11 +998,10 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
-			// Note: Because of race conditions in a threaded
-			// environment, it might be the case that empty() is
-			// not yet true, as pop_front() first updates rp and
-			// then pops the message.
+		if(wp == rp && partial == 0 && m_msg.empty()) {
+			// Note: Even when wp == rp, there may still be
+			// zero-length messages, which refer to the current
+			// position in the buffer.
 
 			// When empty, the other side ignores the wp/rp, so we
 			// can safely tinker with it.
-- 
2.43.0


From 50d0502922658ea0dd8cc497d7f40df77b6045b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 005/108] fix: front() of zero-length message at the end of the
 MessageFifo buffer

---
 include/libstored/fifo.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 9d0a8fc..2d0cb2e 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -103,6 +103,16 @@ public:
 		return m_buffer.size();
 	}
 
+	type const* data() const noexcept
+	{
+		return m_buffer.data();
+	}
+
+	type* data() noexcept
+	{
+		return m_buffer.data();
+	}
+
 	void resize(size_t count)
 	{
 		(void)count;
@@ -162,6 +172,16 @@ public:
 		return m_buffer.size();
 	}
 
+	type const* data() const noexcept
+	{
+		return m_buffer.data();
+	}
+
+	type* data() noexcept
+	{
+		return m_buffer.data();
+	}
+
 	void resize(size_t count)
 	{
 		if(count > m_buffer.size())
@@ -907,13 +927,13 @@ public:
 	const_type front() const noexcept
 	{
 		Msg const& msg = m_msg.front();
-		return const_type{&m_buffer[msg.first], msg.second};
+		return const_type{m_buffer.data() + msg.first, msg.second};
 	}
 
 	type front() noexcept
 	{
 		Msg& msg = m_msg.front();
-		return type{&m_buffer[msg.first], msg.second};
+		return type{m_buffer.data() + msg.first, msg.second};
 	}
 
 	void pop_front() noexcept
-- 
2.43.0


From 3535f28f7c91f765aba79b59b4d648c684f7e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 006/108] fix: Fifo/MessageFifo data race between producer and
 consumer

---
 include/libstored/fifo.h | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 2d0cb2e..cec6be5 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -493,6 +493,13 @@ class Fifo {
 
 	typedef Buffer<T, Capacity == 0 ? 0 : Capacity + 1> Buffer_type;
 
+	// The other side's pointer must be acquired before accessing the elements it guards, and
+	// the own pointer must be released after accessing them.
+	static constexpr std::memory_order acquire =
+		ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	static constexpr std::memory_order release =
+		ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+
 public:
 	typedef T type;
 	typedef typename Buffer_type::pointer pointer;
@@ -514,7 +521,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(acquire) == m_rp.load(acquire);
 	}
 
 	bool full() const noexcept
@@ -524,15 +531,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire);
+		pointer rp = m_rp.load(acquire);
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire);
+		pointer rp = m_rp.load(acquire);
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -585,7 +592,7 @@ public:
 
 	void pop_front(size_t count = 1) noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire);
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
@@ -602,7 +609,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(rp, release);
 		}
 	}
 
@@ -703,7 +710,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(acquire), release);
 		}
 	}
 
@@ -713,7 +720,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(acquire);
 		return View{m_buffer, rp, wp};
 	}
 
@@ -732,7 +739,7 @@ protected:
 		stored_assert(space() >= count);
 
 		wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer rp = m_rp.load(acquire);
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
@@ -871,6 +878,11 @@ class MessageFifo {
 	typedef typename Buffer_type::pointer buffer_pointer;
 	typedef std::pair<buffer_pointer, buffer_pointer> Msg;
 
+	static constexpr std::memory_order acquire =
+		ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	static constexpr std::memory_order release =
+		ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+
 public:
 	typedef Message type;
 	typedef MessageView const_type;
@@ -912,7 +924,7 @@ public:
 		if(m_msg.full())
 			return 0;
 
-		size_t rp = m_rp.load(std::memory_order_relaxed);
+		size_t rp = m_rp.load(acquire);
 		size_t wp = m_wp.load(std::memory_order_relaxed);
 		size_t partial = m_wp_partial - wp;
 		size_t sz = size();
@@ -939,7 +951,7 @@ public:
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		m_rp.store((buffer_pointer)(msg.first + msg.second), release);
 		m_msg.pop_front();
 	}
 
@@ -1003,7 +1015,7 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(acquire);
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From ef406fcbe6fcb13d79ff1419a3fd6c55163484bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 007/108] fix: FifoLoopback1 mtu larger than what fits in its
 fifo

---
 include/libstored/fifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index cec6be5..9b7a850 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1266,7 +1266,8 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		size_t cap = m_fifo.capacity();
+		return res ? std::min(cap, res) : cap;
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From 9989e1419eb525d9ca85847ceeb1b90df3c96fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 008/108] fix: FifoLoopback1 passes truncated message after
 overflow

---
 include/libstored/fifo.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 9b7a850..0c8cd2e 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1208,14 +1208,24 @@ public:
 	 */
 	virtual void encode(void const* buffer, size_t len, bool last = true) override
 	{
-		bool res = false;
+		bool res = m_drop;
 
-		do {
+		while(!res) {
 			if(last)
 				res = m_fifo.push_back((char const*)buffer, len);
 			else
 				res = m_fifo.append_back((char const*)buffer, len);
-		} while(!res && overflow());
+
+			if(!res && !overflow()) {
+				// Drop the whole message, not only this part.
+				m_fifo.reset_back();
+				m_drop = true;
+				break;
+			}
+		}
+
+		if(last)
+			m_drop = false;
 
 		base::encode(buffer, len, last);
 	}
@@ -1261,6 +1271,7 @@ public:
 	{
 		base::reset();
 		setLastError(0);
+		m_drop = false;
 	}
 
 	virtual size_t mtu() const override
@@ -1303,6 +1314,7 @@ public:
 private:
 	Fifo_type m_fifo;
 	Callable<OverflowCallback>::type m_overflowCallback;
+	bool m_drop = false;
 };
 
 /*!
-- 
2.43.0


From af4b14ac15992ec55460e8908e11a8656b88de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 009/108] fix: MessageFifo refuses messages when empty after an
 aborted append_back()

---
 include/libstored/fifo.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 0c8cd2e..20036d5 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1030,10 +1030,12 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0 && m_msg.empty()) {
-			// Note: Even when wp == rp, there may still be
-			// zero-length messages, which refer to the current
-			// position in the buffer.
+		if(partial == 0 && m_msg.empty()) {
+			// Note: Do not check wp == rp to determine if it is
+			// empty; there may still be zero-length messages,
+			// which refer to the current position in the buffer,
+			// and wp may have been moved by append_back() before a
+			// reset_back().
 
 			// When empty, the other side ignores the wp/rp, so we
 			// can safely tinker with it.
-- 
2.43.0


From 1acceab8121e4fc0883d133575822cde63993839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 010/108] fix: ScratchPad counter overflow when allocating more
 than MaxSize

---
 include/libstored/spm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 98ef872..9d2cc5f 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -528,8 +528,10 @@ public:
 		if(padding == align)
 			padding = 0;
 
-		if(unlikely(m_total + alloc_size + padding < m_total)) {
-			// Wrap around -> overflow.
+		if(unlikely(
+			   alloc_size > (size_t)MaxSize - m_total
+			   || padding > (size_t)MaxSize - m_total - alloc_size)) {
+			// The total does not fit in size_type -> overflow.
 #	ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
 #	else
-- 
2.43.0


From 59a4cc0b228a2ec4855c4a345d81d8666003181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 011/108] fix: rollback of a ScratchPad snapshot of a full
 buffer

---
 include/libstored/spm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 9d2cc5f..aa0698b 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -279,7 +279,8 @@ private:
 		char* snapshot_ = static_cast<char*>(snapshot);
 
 		// Find correct buffer.
-		while(!(snapshot_ >= m_buffer && snapshot_ < &m_buffer[bufferSize()])) {
+		// Note that the snapshot points one past the end when the buffer was full.
+		while(!(snapshot_ >= m_buffer && snapshot_ <= m_buffer + bufferSize())) {
 			m_size = 0; // Don't care, will be recovered later on.
 			bufferPop();
 			stored_assert(m_buffer);
@@ -289,10 +290,10 @@ private:
 		stored_assert(size <= m_total);
 		m_total = size;
 		size_t size_ = (size_t)(snapshot_ - m_buffer);
-		stored_assert(size_ < bufferSize());
+		stored_assert(size_ <= bufferSize());
 		m_size = (size_type)size_;
 
-		STORED_MAKE_MEM_NOACCESS(&m_buffer[m_size], bufferSize() - m_size);
+		STORED_MAKE_MEM_NOACCESS(m_buffer + m_size, bufferSize() - m_size);
 	}
 
 	/*!
-- 
2.43.0


From eb1f1723a20a5fc930d54e33b92b46d61451762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 012/108] fix: dangling ScratchPad buffer when growing it fails

---
 include/libstored/spm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index aa0698b..5ed2451 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -370,6 +370,8 @@ private:
 		// Standard allocators don't have realloc. So, deallocate first,
 		// and then allocate a new one.
 		chunkDeallocate(chunk(), bufferSize());
+		// allocate() may throw std::bad_alloc.
+		m_buffer = nullptr;
 		m_buffer = buffer(allocate<char>(size + chunkHeader));
 		setBufferSize(size);
 
-- 
2.43.0


From 68dae5e3bbcde81b32c34c711d2ae775d7c21363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 013/108] fix: growing ScratchPad buffer that is referred to by
 a snapshot

---
 include/libstored/spm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 5ed2451..f2dcd5b 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -465,8 +465,10 @@ public:
 		if(likely(new_cap <= bufferSize()))
 			return;
 
-		if(m_buffer && m_size == 0) {
+		if(m_buffer && m_total == 0) {
 			// Grow (realloc) is fine, as nobody is using the current buffer (if any).
+			// Note that if m_size == 0, but m_total != 0, a snapshot may still refer to
+			// the start of the current buffer.
 			bufferGrow(new_cap);
 		} else {
 			// Grow (realloc) may move the buffer. So don't do that.
-- 
2.43.0


From 560c8ba59202be5e2dd81d5c2596bec925f9b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 014/108] fix: self-move-assignment of Callable

---
 include/libstored/allocator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 9b498e4..15510a4 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -446,9 +446,11 @@ public:
 
 	Callable& operator=(Callable&& c) noexcept
 	{
-		destroy();
-		c.get().move(m_buffer.data());
-		c = nullptr;
+		if(&c != this) {
+			destroy();
+			c.get().move(m_buffer.data());
+			c = nullptr;
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 666989b93249eb80a67019964f41997b5dca6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 015/108] fix: leak and invalid destruction when copying into a
 Callable throws

---
 include/libstored/allocator.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 15510a4..3d20f79 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -303,8 +303,17 @@ protected:
 				int>::type = 0>
 		// NOLINTNEXTLINE(misc-forwarding-reference-overload,bugprone-forwarding-reference-overload)
 		explicit Forwarder(F_&& f)
-			: m_w{new(allocate<Wrapper<F>>()) Wrapper<F>(std::forward<F_>(f))}
-		{}
+			: m_w{allocate<Wrapper<F>>()}
+		{
+			try {
+				new(m_w) Wrapper<F>(std::forward<F_>(f));
+			} catch(...) {
+				deallocate(m_w);
+#    ifdef STORED_cpp_exceptions
+				throw;
+#    endif
+			}
+		}
 
 		explicit Forwarder(Wrapper<F>& w) noexcept
 			: m_w{&w}
@@ -336,9 +345,11 @@ protected:
 				auto w = allocate<Wrapper<F>>();
 				try {
 					f.m_w->clone(w);
+					cleanup(m_w);
 					m_w = w;
 				} catch(...) {
-					cleanup(w);
+					// Not constructed yet, so don't destroy.
+					deallocate(w);
 #    ifdef STORED_cpp_exceptions
 					throw;
 #    endif
-- 
2.43.0


From b04693a302eff28a16b9cdf9fba139d9570e8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 016/108] fix: TerminalLayer misses debug message that is
 preceded by an ESC

---
 src/protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..5cc21f0 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,8 +245,9 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
+			} else if(c != Esc)
 				m_decodeState = StateNormal;
+			// else: this ESC may start the escape sequence.
 			break;
 		case StateDebug:
 			if(unlikely(c == Esc))
-- 
2.43.0


From 8a21f0cde785d2af36530455f76c242555876fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 017/108] fix: AsciiEscapeLayer does not ignore \r at the end
 of a message

---
 src/protocol.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 5cc21f0..030b290 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -85,7 +85,10 @@ void AsciiEscapeLayer::decode(void* buffer, size_t len)
 		if(unlikely(p[i] == Esc || p[i] == '\r'))
 			goto first_escape;
 
-	// No escape characters.
+	// No escape characters. Drop a trailing \r, if any.
+	if(len > 0 && p[len - 1] == '\r')
+		len--;
+
 	base::decode(buffer, len);
 	return;
 
@@ -115,8 +118,8 @@ escape:
 			p[decodeOffset] = p[i];
 	}
 
-	// Always add the last character (if any).
-	if(i < len)
+	// Always add the last character (if any), unless it is an injected \r.
+	if(i < len && p[i] != '\r')
 		p[decodeOffset++] = p[i];
 	base::decode(p, decodeOffset);
 }
-- 
2.43.0


From c5f5484774ab38652e7cf4967fbf85cc0c02126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 018/108] fix: Crc16Layer exceeds lower MTU of 257

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 030b290..e16f531 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1444,7 +1444,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 257U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From acf6676a92a15090e374c0afbfaa29a04ad16ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 019/108] fix: CompressLayer decodes only the first message
 correctly

---
 src/compress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..a496771 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -94,6 +94,9 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
+	// The encoder starts every message with a clean state too.
+	heatshrink_decoder_reset(&decoder());
+
 	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
 }
-- 
2.43.0


From 5160d17f4a9297ba78b8a1c8c338c8bd727eba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 020/108] fix: CompressLayer retains partial message after
 reset()

---
 include/libstored/compress.h |  1 +
 src/compress.cpp             | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/libstored/compress.h b/include/libstored/compress.h
index 7b77792..22a71c4 100644
--- a/include/libstored/compress.h
+++ b/include/libstored/compress.h
@@ -64,6 +64,7 @@ public:
 	using base::encode;
 #		endif
 	virtual size_t mtu() const override;
+	virtual void reset() override;
 
 	void setPurgeableResponse(bool purgeable = true) final
 	{
diff --git a/src/compress.cpp b/src/compress.cpp
index a496771..b8eee8c 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -56,6 +56,18 @@ CompressLayer::~CompressLayer()
 		heatshrink_decoder_free(&decoder());
 }
 
+void CompressLayer::reset()
+{
+	if(m_encoder)
+		heatshrink_encoder_reset(&encoder());
+
+	if(m_decoder)
+		heatshrink_decoder_reset(&decoder());
+
+	m_state = 0;
+	base::reset();
+}
+
 void CompressLayer::decode(void* buffer, size_t len)
 {
 	stored_assert(len == 0 || buffer);
-- 
2.43.0


From 704e7a762a958e83aa9404cb61ff269c0c969735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 021/108] fix: CRC and segmentation layers when encode() is
 called recursively via a Loopback

---
 src/protocol.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index e16f531..ce5205f 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -443,8 +443,9 @@ void SegmentationLayer::encode(void const* buffer, size_t len, bool last)
 	if(last) {
 		// The marker always ends the packet.
 		char end = EndMarker;
-		base::encode(&end, 1, true);
+		// Reset first, as the lower layer may recursively encode() again.
 		m_encoded = 0;
+		base::encode(&end, 1, true);
 	}
 }
 
@@ -1333,8 +1334,10 @@ void Crc8Layer::encode(void const* buffer, size_t len, bool last)
 	base::encode(buffer, len, false);
 
 	if(last) {
-		base::encode(&m_crc, 1, true);
+		// Reset first, as the lower layer may recursively encode() again.
+		uint8_t crc = m_crc;
 		m_crc = init;
+		base::encode(&crc, 1, true);
 	}
 }
 
@@ -1430,8 +1433,9 @@ void Crc16Layer::encode(void const* buffer, size_t len, bool last)
 
 	if(last) {
 		uint8_t crc[2] = {(uint8_t)(m_crc >> 8U), (uint8_t)m_crc};
-		base::encode(crc, sizeof(crc), true);
+		// Reset first, as the lower layer may recursively encode() again.
 		m_crc = init;
+		base::encode(crc, sizeof(crc), true);
 	}
 }
 
-- 
2.43.0


From 7e1d1be4719548425a7ae4ccbc7435a69fef0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 022/108] fix: endless resets by ArqLayer when a reset message
 was retransmitted

---
 src/protocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index ce5205f..4e398be 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -537,11 +537,15 @@ void ArqLayer::decode(void* buffer, size_t len)
 				if(unlikely((hdr & SeqMask) == 0)) {
 					// This is an ack to our reset message. We are connected
 					// now.
-					reconnect = true;
 					base::connected();
 				}
 			}
 
+			if(unlikely((hdr & SeqMask) == 0))
+				// If a reset follows in this message, it is the response to our
+				// (possibly retransmitted) reset.
+				reconnect = true;
+
 			buffer_++;
 			len--;
 		} else if(likely((hdr & SeqMask) == m_recvSeq)) {
-- 
2.43.0


From ac8ca1dd3689e9c6495570104de414b650ea8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 023/108] fix: DebugArqLayer ignores next request after partial
 retransmit of the previous one

---
 src/protocol.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 4e398be..3abd869 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1000,7 +1000,8 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 		stored_assert(
 			m_encodeState == EncodeStateIdle
 			|| m_encodeState == EncodeStateUnbufferedIdle);
-
+		STORED_FALLTHROUGH
+	case DecodeStateRetransmit:
 		if(seq == m_decodeSeq) {
 			// This is the next command. The previous one was received, apparently.
 			m_decodeState = DecodeStateIdle;
@@ -1010,8 +1011,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 			setPurgeableResponse(false);
 			break;
 		}
-		STORED_FALLTHROUGH
-	case DecodeStateRetransmit:
+
 		if(seq == m_decodeSeqStart) {
 			// This seems to be a retransmit of the current command.
 			switch(m_encodeState) {
-- 
2.43.0


From 0ecfd99e7ba1e6500246be09c7a608b0260a7b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 024/108] fix: NameError in mtu of Python's TerminalLayer

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c6a04df..3900902 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -219,7 +219,7 @@ class TerminalLayer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 0
-        return max(1, m - len(start) - len(end))
+        return max(1, m - len(self.start) - len(self.end))
 
 class PubTerminalLayer(TerminalLayer):
     """
-- 
2.43.0


From 6e6a4eb7b55d395542c4c3428c15496ec7b1d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 025/108] fix: Python's Crc16Layer exceeds the MTU by one byte

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 3900902..c0bde53 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -507,7 +507,7 @@ class Crc16Layer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 256
-        return min(256, max(1, m - 1))
+        return min(256, max(1, m - 2))
 
 class ProtocolStack(ProtocolLayer):
     name = 'stack'
-- 
2.43.0


From 6e01633e532b310d818a350aa8464a2b48e427d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 026/108] fix: Python's SegmentationLayer ignores lower MTU,
 and drops empty messages

---
 python/libstored/protocol.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c0bde53..bc049f2 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -267,10 +267,10 @@ class SegmentationLayer(ProtocolLayer):
             self._buffer = bytearray()
 
     def encode(self, data):
-        mtu = self._mtu
-        if self._mtu == None:
-            mtu = super().mtu
-        if mtu == 0:
+        mtu = super().mtu
+        if self._mtu:
+            mtu = min(mtu, self._mtu) if mtu else self._mtu
+        if mtu == 0 or len(data) == 0:
             super().encode(data + self.end)
         else:
             mtu = max(1, mtu - 1)
-- 
2.43.0


From be9bd3794f874a35bb09bcd57de67adc89bf34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:05 +0000
Subject: [PATCH 027/108] fix: Python's DebugArqLayer never gets a response
 when the first request after a reset was lost

---
 python/libstored/protocol.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index bc049f2..5f1df1a 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -308,6 +308,20 @@ class DebugArqLayer(ProtocolLayer):
         if len(data) == 0:
             return
 
+        if data[0] == self.reset_flag:
+            # This is the ack of our reset, not a response to the request.
+            if self._syncing:
+                self._syncing = False
+                self._decode_seq = self.nextSeq(0)
+                for r in self._request:
+                    super().encode(r)
+                self.activity()
+            return
+
+        if self._syncing:
+            self.logger.debug('response of before reset; dropped')
+            return
+
         (seq, msg) = self.decode_seq(data)
         if data[0] & self.reset_flag:
             self._decode_seq = seq
@@ -326,12 +340,6 @@ class DebugArqLayer(ProtocolLayer):
         else:
             self.logger.debug(f'unexpected seq {seq} instead of {self._decode_seq}; dropped')
 
-        if self._syncing and data[0] == self.reset_flag:
-            self._syncing = False
-            for r in self._request:
-                super().encode(r)
-            self.activity()
-
     def decode_seq(self, data):
         seq = 0
         if len(data) == 0:
-- 
2.43.0


From 695e1f462f7e72f6f2cd8f51e0c096936032cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 028/108] fix: find and list objects that have the same name as
 a scope

---
 python/libstored/generator/dsl/types.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index ff64c0b..c1fa5eb 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -222,14 +222,16 @@ class Directory(object):
                 skip -= s
             return res + self.generateDict(h[names[0]])
         else:
-            # Choose pivot to compare to
-            pivot = int(len(names) / 2)
-            if names[pivot] == '/':
-                if pivot > 0:
-                    pivot -= 1
-                else:
-                    pivot += 1
-            assert(names[pivot] != '/')
+            if names == ['\x00', '/']:
+                # There is an object and a scope with the same name. Compare
+                # to a char in between, which does not occur in any name here.
+                h = {'\x00': h['\x00'], ' ': {}, '/': h['/']}
+                names = ['\x00', ' ', '/']
+
+            # Choose pivot to compare to. Note that '/' and '\x00' are encoded
+            # differently; take the closest other char in that case.
+            middle = int(len(names) / 2)
+            pivot = min((i for i in range(len(names)) if not names[i] in ['/', '\x00']), key=lambda i: abs(i - middle))
             expr = self.generateDict(h[names[pivot]])
 
             # Elements less than pivot
-- 
2.43.0


From 84b0e57825dd0f949b1b0127e19ce3f256cfea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 029/108] fix: list() without prefix must not use the prefix of
 the previous call

---
 src/directory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..a77bb1f 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -98,6 +98,8 @@ void list(
 
 	if(prefix)
 		name = prefix;
+	else
+		name.clear();
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0


From 89e1c60126d868fbdf5da053d3978746886eee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 030/108] fix: store.variable<T>(name) and
 store.function<T>(name) do not compile

---
 include/libstored/store.h.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..fb08375 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -915,7 +915,7 @@ public:
 	Variable<T,Implementation> variable(char const* name,
 		size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeVariable(name, len).apply(*this);
+		return freeVariable<T>(name, len).apply(implementation());
 	}
 
 	/*!
@@ -942,7 +942,7 @@ public:
 	Function<T,Implementation>
 	function(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeFunction(name, len).apply(*this);
+		return freeFunction<T>(name, len).apply(implementation());
 	}
 
 	/*!
-- 
2.43.0


From 5c852baccd3681faed6349bccaa410b26cd6d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 031/108] fix: Variant of Function, Variant::key() and
 Variant<>::function(container) do not compile

---
 include/libstored/types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..626c78d 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,7 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type((uint8_t)(toType<T>::type | Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
@@ -1777,7 +1777,7 @@ public:
 	typename Container::Key key() const noexcept
 	{
 		stored_assert(isVariable());
-		return container()->bufferToKey(m_buffer);
+		return container().bufferToKey(m_buffer);
 	}
 
 	/*!
@@ -1966,7 +1966,7 @@ public:
 	 * \brief Get the typed function corresponding to this variant.
 	 */
 	template <typename T, typename Container>
-	Variable<T, Container> function(Container& container) const noexcept
+	Function<T, Container> function(Container& container) const noexcept
 	{
 		return apply<Container>(container).template function<T>();
 	}
-- 
2.43.0


From 21b30979c789bb54fac6194e83a141ee23d72bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:09 +0000
Subject: [PATCH 032/108] fix: non-ASCII characters in string initializers are
 encoded twice

---
 python/libstored/generator/dsl/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index c1fa5eb..1d4c75c 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -606,7 +606,7 @@ class Variable(Object):
             self.size = type.blob.size
             self.init = None
             if self.type == 'string' and type.init is not None:
-                self.init = bytes(str(type.init), "utf-8").decode("unicode_escape")
+                self.init = str(type.init).encode('latin-1', 'backslashreplace').decode('unicode_escape')
                 l = len(self.init.encode())
                 if self.size < l:
                     sys.exit(f'String initializer is too long')
-- 
2.43.0


From 5678bda934b146cf5677ac2091b6f56e0298675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 033/108] fix: objects without letters in their name get an
 empty C++ name

---
 python/libstored/generator/dsl/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 1d4c75c..9d88997 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -50,7 +50,7 @@ def cname(s):
     c = re.sub(r'^[^A-Za-z]_*', '_', c)
     c = re.sub(r'_+$', '', c)
 
-    if s == '':
+    if c == '':
         c = 'obj'
 
     if is_reserved_name(c):
-- 
2.43.0


From 13504a53be8a07d012b8f9ba192480192c939f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 034/108] fix: names with */ or a trailing backslash break the
 generated code

---
 include/libstored/store.h.tmpl         | 20 ++++++++++----------
 python/libstored/generator/__main__.py |  5 +++++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index fb08375..fa301d5 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -171,7 +171,7 @@ struct {{store.name}}FunctionMap {};
 {%   if o is function %}
 {%     if not o is blob %}
 
-// {{o}}
+// {{o|ccomment}}
 template <typename Implementation>
 struct {{store.name}}FunctionMap<Implementation,{{o.f}}> {
 	typedef {{o|ctype}} type;
@@ -222,18 +222,18 @@ public:
 {% for o in store.objects %}
 {%   if o is blob %}
 {%     if o is variable %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariantV<Base,Implementation,{{o|stype}},{{o.offset}}u,{{o.size}}u> {{o.cname}};
 {%     elif o is function %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariantF<Base,Implementation,{{o|stype}},{{o.f}}u,{{o.size}}u> {{o.cname}};
 {%     endif %}
 {%   else %}
 {%     if o is variable %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreVariable<Base,Implementation,{{o|ctype}},{{o.offset}}u,{{o.size}}> {{o.cname}};
 {%     elif o is function %}
-		/*! \brief {{o}} */
+		/*! \brief {{o|ccomment}} */
 		impl::StoreFunction<Base,Implementation,{{store.name}}FunctionMap,{{o.f}}u> {{o.cname}};
 {%     endif %}
 {%   endif %}
@@ -499,7 +499,7 @@ protected:
 		switch(f) {
 {%   for o in store.objects %}
 {%     if o is function %}
-		case {{o.f}}: // {{o}}
+		case {{o.f}}: // {{o|ccomment}}
 {%       if o is blob %}
 			return implementation().__{{o.cname}}(set,
 				static_cast<{{o|ctype}}*>(buffer), len);
@@ -529,7 +529,7 @@ public:
 {%   for o in store.objects %}
 {%     if o is function %}
 {%       if o is blob %}
-	/*! \brief Callback for {{o}} */
+	/*! \brief Callback for {{o|ccomment}} */
 	size_t __{{o.cname}}(bool set, {{o|ctype}}* value, size_t len)
 #	ifdef STORED_DEFAULT_FUNCTION_CALLBACK
 	{
@@ -542,7 +542,7 @@ public:
 	;
 #	endif
 {%       else %}
-	/*! \brief Callback for {{o}} */
+	/*! \brief Callback for {{o|ccomment}} */
 	void __{{o.cname}}(bool set, {{o|ctype}}& value)
 #	ifdef STORED_DEFAULT_FUNCTION_CALLBACK
 	{
@@ -789,7 +789,7 @@ protected:
 {% for o in store.objects|select('variable') %}
 
 	/*!
-	 * \brief Callback when {{o.name}} has changed.
+	 * \brief Callback when {{o|ccomment}} has changed.
 	 * \details Default implementation does nothing. Override in subclass.
 	 */
 	void __{{o.cname}}__changed() noexcept {}
@@ -856,7 +856,7 @@ protected:
 public:
 {% for a in store.arrays %}
 	/*!
-	 * \brief Array-lookup accessor for {{a.name}}
+	 * \brief Array-lookup accessor for {{a.name|ccomment}}
 	 */
 	Variant<Implementation> {{a.c_decl()}} noexcept
 	{
diff --git a/python/libstored/generator/__main__.py b/python/libstored/generator/__main__.py
index 5693252..4657c38 100644
--- a/python/libstored/generator/__main__.py
+++ b/python/libstored/generator/__main__.py
@@ -205,6 +205,10 @@ def carray(a):
 def escapebs(s):
     return re.sub(r'\\', r'\\\\', s)
 
+def ccomment(s):
+    # The name must not end the C/C++ comment it is in, or continue it at the next line.
+    return re.sub(r'\*/', '* /', re.sub(r'\\$', r'\\ .', str(s)))
+
 def rtfstring(s):
     return re.sub(r'([\\{}])', r'\\\1', s)
 
@@ -349,6 +353,7 @@ def generate_store(model_file, output_dir, littleEndian=True):
     jenv.filters['vhdlname'] = types.vhdlname
     jenv.filters['len'] = len
     jenv.filters['hasfunction'] = has_function
+    jenv.filters['ccomment'] = ccomment
     jenv.filters['rtfstring'] = rtfstring
     jenv.filters['csvstring'] = csvstring
     jenv.filters['pystring'] = pystring
-- 
2.43.0


From d4d03d2527523df75b36de9ff1c4c1f99148e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:29 +0000
Subject: [PATCH 035/108] fix: assert on blob at the end of the store's buffer

---
 include/libstored/store.h.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index fa301d5..42bc838 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -449,7 +449,7 @@ private:
 	 */
 	Variant<Implementation> _variantv(Type::type type, size_t offset, size_t len) noexcept
 	{
-		stored_assert(offset + len < sizeof(m_data.buffer));
+		stored_assert(offset + len <= sizeof(m_data.buffer));
 		stored_assert(!Type::isFunction(type));
 		return Variant<Implementation>(implementation(), type, &buffer()[offset], len);
 	}
-- 
2.43.0


From fc0381f5b120ef0ac40dbe605e88eb9ad45e9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:29 +0000
Subject: [PATCH 036/108] fix: empty blobs share their address with another
 variable

---
 python/libstored/generator/dsl/types.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 9d88997..4ce78aa 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -356,16 +356,18 @@ class Buffer(object):
     def generate(self, initvars, defaultvars, littleEndian = True):
         self.init = []
         for v in initvars:
-            size = v.buffersize()
+            # Also an empty blob must have its own place in the buffer.
+            size = max(1, v.buffersize())
             alignedsize = self.align(size)
             v.offset = len(self.init)
             self.init += list(v.encode(v.init, littleEndian))
-            if alignedsize > size:
-                self.init += [0] * (alignedsize - size)
+            if len(self.init) < v.offset + alignedsize:
+                self.init += [0] * (v.offset + alignedsize - len(self.init))
 
         self.size = self.align(len(self.init), 8)
         for v in defaultvars:
-            size = v.buffersize()
+            # Also an empty blob must have its own place in the buffer.
+            size = max(1, v.buffersize())
             alignedsize = self.align(size)
             v.offset = self.size
             self.size += alignedsize
-- 
2.43.0


From 1490e24dfc6a8c8f950aa6a39053657ede689893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 037/108] fix: array accessors ignore the remaining indices
 when there is only one object left

---
 python/libstored/generator/dsl/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 4ce78aa..2cfc7f3 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -409,7 +409,8 @@ class ArrayLookup(object):
     def _tree(self, objects, index = 0):
         if len(objects) == 0:
             return None
-        if len(objects) == 1:
+        if index >= len(objects[0].name_index) or objects[0].name_index[index][1] == None:
+            # All indices are matched, so there is only one object left.
             return objects[0]
 
         res = {}
-- 
2.43.0


From 6a3bfdd19f2077c8ddd2e5fcbc27530227bd965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 038/108] fix: generated array accessor does not compile for
 x[n] and x[n]/y[m] of different depth

---
 python/libstored/generator/dsl/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 2cfc7f3..7d54ced 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -544,6 +544,8 @@ class Store(object):
             key = []
             for i in range(0, len(o.name_index)):
                 key.append(o.name_index[i][0])
+            # The last part of the name may or may not have an index.
+            key.append(o.name_index[-1][1] == None)
             # Make hashable
             key = tuple(key)
             if not key in grouped_objects:
-- 
2.43.0


From a6368763fc4a456c31c9f50ff6b2046b02c2f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 039/108] fix: string initializer that ends with an escaped
 backslash is not recognized properly

---
 python/libstored/generator/dsl/grammar.tx | 6 +++++-
 python/libstored/generator/dsl/types.py   | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/libstored/generator/dsl/grammar.tx b/python/libstored/generator/dsl/grammar.tx
index cf174d1..be88a83 100644
--- a/python/libstored/generator/dsl/grammar.tx
+++ b/python/libstored/generator/dsl/grammar.tx
@@ -26,7 +26,7 @@ Scope[noskipws]:
 
 InitializedType[noskipws]:
 	fixed=FixedTypeArray ('=' init=Immediate ) ? |
-	blob=StringType ('=' init=STRING ) ? |
+	blob=StringType ('=' init=StringLiteral ) ? |
 	blob=BlobType
 ;
 
@@ -65,6 +65,10 @@ Name[noskipws]:
 	/([ -.0-~]\/?)*[!-.0-~]/
 ;
 
+StringLiteral[noskipws]:
+	/"(\\(.|\n)|[^"\\])*"|'(\\(.|\n)|[^'\\])*'/
+;
+
 Immediate[noskipws]:
 	value=/0x[0-9a-fA-F]+|0b[01]+/ |
 	value=NUMBER |
diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 7d54ced..41f3a84 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -610,8 +610,9 @@ class Variable(Object):
             self.type = type.blob.type
             self.size = type.blob.size
             self.init = None
-            if self.type == 'string' and type.init is not None:
-                self.init = str(type.init).encode('latin-1', 'backslashreplace').decode('unicode_escape')
+            if self.type == 'string' and type.init:
+                # Drop the quotes.
+                self.init = str(type.init)[1:-1].encode('latin-1', 'backslashreplace').decode('unicode_escape')
                 l = len(self.init.encode())
                 if self.size < l:
                     sys.exit(f'String initializer is too long')
-- 
2.43.0


From ed312b7bbdbcd63a0358c85b24e9ee0a4dc47a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 040/108] fix: memcmp_swap() determined the order by comparing
 the wrong bytes

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0ea0867..e87f0f5 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -112,7 +112,7 @@ int memcmp_swap(void const* a, void const* b, size_t len) noexcept
 	return 0;
 
 diff:
-	return a_[i] < b_[i] ? -1 : 1;
+	return a_[i] < b_[len - i - 1] ? -1 : 1;
 }
 
 /*!
-- 
2.43.0


From 164110ba6e17f3de7ed40d80542c74228c4ae569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 041/108] fix: order of non-ASCII characters by strncmp()

---
 src/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e87f0f5..1b34285 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -46,8 +46,9 @@ int strncmp(
 
 	size_t i = 0;
 	for(; i < len1 && i < len2; i++) {
-		char c1 = str1[i];
-		char c2 = str2[i];
+		// Like ::strncmp(), compare as unsigned characters.
+		unsigned char c1 = (unsigned char)str1[i];
+		unsigned char c2 = (unsigned char)str2[i];
 
 		if(c1 < c2)
 			return -1;
-- 
2.43.0


From 689d294c545b6f7ff64167077b715d54e41e36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 042/108] fix: saturated_cast of floating point values outside
 of the range of long long

---
 include/libstored/util.h | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 7df7a4e..7b71e9b 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -690,15 +690,15 @@ struct saturated_cast_helper {
 
 	__attribute__((pure)) static R cast(float value) noexcept
 	{
-		return cast(llroundf(value));
+		return inRoundRange(value) ? cast(llroundf(value)) : castOutOfRoundRange(value);
 	}
 	__attribute__((pure)) static R cast(double value) noexcept
 	{
-		return cast(llround(value));
+		return inRoundRange(value) ? cast(llround(value)) : castOutOfRoundRange(value);
 	}
 	__attribute__((pure)) static R cast(long double value) noexcept
 	{
-		return cast(llroundl(value));
+		return inRoundRange(value) ? cast(llroundl(value)) : castOutOfRoundRange(value);
 	}
 	__attribute__((pure)) static R cast(bool value) noexcept
 	{
@@ -708,6 +708,33 @@ struct saturated_cast_helper {
 	{
 		return value;
 	}
+
+private:
+	/*! \brief Check if \c llround() can represent the given value. Returns \c false for NaN. */
+	template <typename T>
+	constexpr static bool inRoundRange(T value) noexcept
+	{
+		// -2^63 <= value < 2^63 - 1/2. The upper bound is 2^63 when T cannot represent it.
+		return value >= static_cast<T>(-9223372036854775808.0L)
+		       && value < static_cast<T>(9223372036854775807.5L);
+	}
+
+	/*! \brief Convert a value for which #inRoundRange() does not hold. */
+	template <typename T>
+	__attribute__((pure)) static R castOutOfRoundRange(T value) noexcept
+	{
+		if(!(value < 0) && !(value > 0))
+			return 0; // NaN
+		if(value < 0)
+			return std::numeric_limits<R>::min();
+		// max() may be rounded up to the next power of two, when converted to T.
+		if(value >= static_cast<T>(std::numeric_limits<R>::max()))
+			return std::numeric_limits<R>::max();
+		R res = static_cast<R>(value);
+		if(value - static_cast<T>(res) >= static_cast<T>(0.5))
+			res++;
+		return res;
+	}
 };
 
 template <>
-- 
2.43.0


From 227048905cd87d4b959fff5c4515d66d533e363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 043/108] fix: FreeFunction cannot hold the ID of the last
 function

---
 include/libstored/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 626c78d..2445581 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1119,7 +1119,7 @@ public:
 	typedef unsigned int f_type;
 #  else
 	typedef typename value_type<static_cast<uintmax_t>(
-		Container::FunctionCount > 0 ? Container::FunctionCount - 1 : 0)>::type f_type;
+		Container::FunctionCount)>::type f_type;
 #  endif
 
 	/*! \brief Constructor for an invalid variable. */
@@ -1137,7 +1137,7 @@ protected:
 	{
 #  if STORED_cplusplus < 201103L || STORED_cplusplus >= 201402L
 		// For C++11, the body must be empty.
-		stored_assert(f < std::numeric_limits<f_type>::max());
+		stored_assert(f <= std::numeric_limits<f_type>::max());
 #  endif
 	}
 
-- 
2.43.0


From bfe8acf9a6c1d52faf07b54cb44b705064ead74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 044/108] fix: function IDs of a store depend on the other
 stores of the same generator run

---
 python/libstored/generator/dsl/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 41f3a84..31c3374 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -510,6 +510,8 @@ class Store(object):
                 sys.exit(f'Empty scope name in "{o.name}"')
 
     def generateBuffer(self):
+        # Function IDs are local to the store.
+        Function.f = 1
         initvars = []
         defaultvars = []
         for o in self.objects:
-- 
2.43.0


From d4d32b0c777e5cfe1e5fa6e7082b0e6902ca598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 045/108] fix: function call with an unaligned buffer does not
 transfer the value

---
 include/libstored/types.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 2445581..d353bae 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -946,14 +946,14 @@ public:
 		   && ((uintptr_t)buffer & (std::min(sizeof(void*), sizeof(type)) - 1U))) {
 			// Unaligned access, do the callback on a local buffer.
 			stored_assert(len >= sizeof(type));
-			type v;
+			type v = type();
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From 7697ab1eeedf319096b7fa5424d745925ada6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 046/108] fix: get()/set() of a store function via a buffer
 require an aligned buffer

---
 include/libstored/types.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index d353bae..e6a7814 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -2307,8 +2307,7 @@ public:
 		STORED_UNUSED(len)
 		stored_assert(len == sizeof(type));
 		stored_assert(dst);
-		call(false, *static_cast<type*>(dst));
-		return sizeof(type);
+		return function().get(dst, sizeof(type));
 	}
 
 	type operator()() const
@@ -2326,8 +2325,7 @@ public:
 		STORED_UNUSED(len)
 		stored_assert(len == sizeof(type));
 		stored_assert(src);
-		call(true, *static_cast<type*>(src));
-		return sizeof(type);
+		return function().set(src, sizeof(type));
 	}
 
 	void operator()(type value)
-- 
2.43.0


From 97e4ee444686084f9e72e9b5399b6d88a29a0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 047/108] fix: copy() of a string leaves the end of the
 previous value in place

---
 include/libstored/types.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index e6a7814..a31c07b 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1829,18 +1829,20 @@ public:
 		size_t len = size();
 		bool changed = true;
 
+		if(type() == Type::String)
+			// The byte after the buffer of the string is reserved for the \0.
+			len++;
+
 		other.entryRO(len);
 		entryX(len);
 
 		if(type() == Type::String) {
+			char* dst = static_cast<char*>(buffer());
+			char const* src = static_cast<char const*>(other.buffer());
 			if(Config::EnableHooks)
-				changed = ::strncmp(
-						  static_cast<char*>(buffer()),
-						  static_cast<char const*>(other.buffer()), len)
-					  != 0;
+				changed = strncmp(dst, len, src, len) != 0;
 			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+				dst[strncpy(dst, src, size())] = '\0';
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
-- 
2.43.0


From 910b3f4c5b1594daa846ddb40c7eacd0752d6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 048/108] fix: signal is triggered while the exclusive access
 to the variable is not yet released

---
 include/libstored/signal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/signal.h b/include/libstored/signal.h
index fd9e216..9070d88 100644
--- a/include/libstored/signal.h
+++ b/include/libstored/signal.h
@@ -223,13 +223,13 @@ public:
 
 	void __hookExitX(Type::type type, void* buffer, size_t len, bool changed) noexcept
 	{
+		Base::__hookExitX(type, buffer, len, changed);
+
 		if(changed) {
 			// The lookup is linear in the number of connected
 			// functions with this key.
 			m_signal(this->bufferToKey(buffer));
 		}
-
-		Base::__hookExitX(type, buffer, len, changed);
 	}
 
 private:
-- 
2.43.0


From a3a415c4efe53df6ca2852b08d65282182e71373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 049/108] fix: get<T>()/set<T>() of a Variant reject functions

---
 include/libstored/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index a31c07b..11a5e29 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1329,7 +1329,7 @@ public:
 	T get() const
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		T data;
 		size_t len = get(&data, sizeof(T));
@@ -1423,7 +1423,7 @@ public:
 	void set(T value)
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		set(&value, sizeof(T));
 	}
-- 
2.43.0


From 7a2de25175bfdf51e2e35b7cdc3d41598b5ff584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 050/108] fix: WriteMem writes only the first 32 bytes at the
 right address

---
 src/debugger.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..00d35df 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -12,6 +12,8 @@
 
 namespace stored {
 
+static uint8_t decodeNibble(char c, bool& ok);
+
 CLASS_NO_WEAK_VTABLE_DEF(DebugVariantBase)
 CLASS_NO_WEAK_VTABLE_DEF(DebugVariant)
 CLASS_NO_WEAK_VTABLE_DEF(DebugStoreBase)
@@ -704,6 +706,14 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			// Odd number of nibbles.
 			goto error;
 
+		// Check all data first, such that a malformed request does not touch the memory.
+		for(size_t i = 0; i < len; i++) {
+			bool ok = true;
+			decodeNibble(p[i], ok);
+			if(!ok)
+				goto error;
+		}
+
 		// Process data in chunks.
 		while(len > 0) {
 			ScratchPad<>::Snapshot chunk_snapshot = spm().snapshot();
@@ -714,7 +724,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From 47151849b43b5a51498f0490e2bca9887e8b7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 051/108] fix: an empty macro does not send a response

---
 src/debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 00d35df..31fc1cd 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -939,6 +939,7 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 478ed4bbf7f1d6558d20c83d40ceea904c3f58a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 052/108] fix: the write command may store an invalid bool

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 31fc1cd..3f99b83 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1120,6 +1120,10 @@ bool Debugger::decodeHex(Type::type type, void const*& data, size_t& len)
 		}
 	}
 
+	if((type & ~Type::FlagFunction) == Type::Bool)
+		// Any other value than 0 or 1 is not a valid bool.
+		bin[0] = bin[0] ? 1 : 0;
+
 	data = bin;
 	len = binlen;
 	return ok;
-- 
2.43.0


From aad2e2813026ac47936e5a93b220255b70052339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 053/108] fix: the trace command accepts ? as stream name

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 3f99b83..fad56aa 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -853,6 +853,10 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 		if(len < 3)
 			goto error;
 
+		if(p[2] == '?')
+			// This is ambiguous in the 's' command return.
+			goto error;
+
 		m_traceMacro = p[1];
 		m_traceStream = p[2];
 
-- 
2.43.0


From 67489d50374ebafd32662b89665fe36284a5fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 054/108] fix: flushing an empty stream blocks it

---
 include/libstored/debugger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index c126fae..952a9cf 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -92,7 +92,9 @@ public:
 
 	bool flush() final
 	{
-		block();
+		// An empty stream cannot be unblocked by reading it, as it is not listed.
+		if(!empty())
+			block();
 		return true;
 	}
 
-- 
2.43.0


From 802da293ab32e49cb466bf99ddf9740b6274b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 055/108] fix: Debugger::stream() drops data for a flushed
 stream silently

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index fad56aa..2a9a9fe 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1205,6 +1205,10 @@ size_t Debugger::stream(char s, char const* data, size_t len)
 	if(!str)
 		return 0;
 
+	if(str->blocked())
+		// Flushed, and not read yet. New data would be dropped.
+		return 0;
+
 	len = str->fits(len);
 	if(len == 0)
 		return 0;
-- 
2.43.0


From 9550fb765306ceddc8e4ce3463331a31788338fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 056/108] fix: aliases refer to a store after it is unmapped

---
 include/libstored/debugger.h | 21 ++++++++++++++++-----
 src/debugger.cpp             | 22 ++++++++++++++++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index 952a9cf..9f38471 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -530,6 +530,11 @@ public:
 		return !(*this == rhs);
 	}
 
+	void* container() const final
+	{
+		return variant().container();
+	}
+
 protected:
 	using base::operator==;
 
@@ -553,11 +558,6 @@ protected:
 			reinterpret_cast<DebugVariantTyped<>*>(m_buffer));
 	}
 
-	void* container() const final
-	{
-		return variant().container();
-	}
-
 private:
 	/*!
 	 * \brief The buffer to create the contained #stored::DebugVariantTyped into.
@@ -609,6 +609,11 @@ public:
 	virtual DebugVariant
 	find(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept = 0;
 
+	/*!
+	 * \brief Returns the container of the objects of this store.
+	 */
+	virtual void* container() const noexcept = 0;
+
 	/*!
 	 * \brief Callback function prototype as supplied to \c list().
 	 *
@@ -667,6 +672,11 @@ public:
 		return DebugVariant(store().find(name, len));
 	}
 
+	void* container() const noexcept final
+	{
+		return &store();
+	}
+
 private:
 	/*!
 	 * \brief Helper class to pass arguments to #listCallback().
@@ -879,6 +889,7 @@ protected:
 	typedef Map<char, DebugVariant>::type AliasMap;
 	AliasMap& aliases();
 	AliasMap const& aliases() const;
+	void dropAliases(void* container);
 
 	/*! \brief Type of macro map. */
 	typedef Map<char, String::type>::type MacroMap;
diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2a9a9fe..a029357 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -163,9 +163,11 @@ void Debugger::map(DebugStoreBase* store, char const* name)
 		m_map.insert(StoreMap::value_type(name, store));
 	} else {
 		// Replace previous mapping.
+		void* container = it->second->container();
 		// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 		delete it->second;
 		it->second = store;
+		dropAliases(container);
 	}
 }
 
@@ -175,6 +177,8 @@ void Debugger::map(DebugStoreBase* store, char const* name)
  * Note that if after unmapping there is only one mapped store left,
  * the prefixes are automatically dropped from all names.
  *
+ * All aliases to objects of the store are dropped.
+ *
  * \see #map()
  */
 void Debugger::unmap(char const* name)
@@ -183,9 +187,27 @@ void Debugger::unmap(char const* name)
 	if(it == m_map.end())
 		return;
 
+	void* container = it->second->container();
 	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 	delete it->second;
 	m_map.erase(it);
+	dropAliases(container);
+}
+
+/*!
+ * \brief Drop all aliases to objects in the given container, unless it is still mapped.
+ */
+void Debugger::dropAliases(void* container)
+{
+	for(StoreMap::const_iterator it = m_map.begin(); it != m_map.end(); ++it)
+		if(it->second->container() == container)
+			return;
+
+	for(AliasMap::iterator it = aliases().begin(); it != aliases().end();)
+		if(it->second.container() == container)
+			aliases().erase(it++);
+		else
+			++it;
 }
 
 /*!
-- 
2.43.0


From 23ad3539c9b996b6a0a67ddc0f23e55d63779a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 057/108] fix: stores between 64 KiB and 16 MiB cannot be
 synchronized

---
 src/synchronizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..941c1f4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -253,6 +253,8 @@ StoreJournal::StoreJournal(
 
 /*!
  * \brief Compute key size in bytes given a buffer size.
+ *
+ * The size is a power of two, unless the buffer is empty.
  */
 uint8_t StoreJournal::keySize(size_t bufferSize)
 {
@@ -261,7 +263,7 @@ uint8_t StoreJournal::keySize(size_t bufferSize)
 		s++;
 		bufferSize >>= 8U;
 	}
-	return s;
+	return s == 3U ? (uint8_t)4U : s;
 }
 
 /*!
-- 
2.43.0


From d7c95e9959fb40c0024737e7d09b3665340f9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 058/108] fix: a short write to a blob drops an unsent longer
 one from the journal

---
 src/synchronizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 941c1f4..4ef26f4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -395,7 +395,9 @@ bool StoreJournal::update(
 
 	if(o.key == key) {
 		o.seq = toShort(seq);
-		o.len = (Size)len;
+		// There may be a previous change beyond len (of a blob, for example), which is not
+		// sent to all connections yet.
+		o.len = std::max(o.len, (Size)len);
 		return true;
 	} else if(key < o.key)
 		return update(key, len, seq, lower, pivot);
-- 
2.43.0


From be9907b36626d3ccc666c4e61a2a598b4f2e5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 059/108] fix: StoreJournal::clean() drops all recent changes
 when the sequence number is small

---
 src/synchronizer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 4ef26f4..4c4b4e5 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -520,8 +520,13 @@ void StoreJournal::iterateChanged(
  */
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
-	if(oldest == 0)
-		oldest = seq() - SeqCleanThreshold;
+	if(oldest == 0) {
+		if(seq() <= (Seq)SeqCleanThreshold)
+			// Nothing is that old.
+			return;
+
+		oldest = seq() - (Seq)SeqCleanThreshold;
+	}
 
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
-- 
2.43.0


From d1dabfabb16844179e77b05ad456fefa150c356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 060/108] fix: overflow in bounds check of synchronization
 updates

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 4c4b4e5..3972afa 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -800,7 +800,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key >= bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From 5dc192af39a5ab4c3e23b68c8b7a281b9b3e6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 061/108] fix: the Bye of SyncConnection::reset() is
 concatenated with the next message

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 3972afa..540310f 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -846,7 +846,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From 5a15abd77661a326b484f1a67443a5d9666001f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 062/108] fix: Bye with id is matched with the wrong set of ids

---
 src/synchronizer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 540310f..2435a29 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1240,14 +1240,17 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// The id is the one that is determined by the other party.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*(it->first));
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 8ad48a671591b265f0c8740f9c2014175d05d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 063/108] fix: a Welcome from a non-source overwrites the store

---
 src/synchronizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 2435a29..3e1b516 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1175,15 +1175,15 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
-		if(!seq) {
+		StoreInfo& si = m_store[j->second];
+		if(!si.source) {
+			// Wrong direction.
 			bye(id);
 			break;
 		}
 
-		StoreInfo& si = m_store[j->second];
-		if(!si.source) {
-			// Wrong direction.
+		seq = j->second->decodeBuffer(buffer, len);
+		if(!seq) {
 			bye(id);
 			break;
 		}
-- 
2.43.0


From 97b6b80c9d1fab6d66a7f195b127e3b2073adf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 064/108] fix: updates are not forwarded between synchronizers
 of the same store

---
 include/libstored/synchronizer.h |  9 +++++++--
 src/synchronizer.cpp             | 25 ++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index a55fd96..dadfc6a 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -122,6 +122,8 @@ public:
 
 	void clean(Seq oldest = 0);
 	void changed(Key key, size_t len, bool insertIfNew = true);
+	void share(bool add);
+	bool isShared() const;
 	bool hasChanged(Key key, Seq since) const;
 	bool hasChanged(Seq since) const;
 
@@ -226,6 +228,7 @@ private:
 	Seq m_seq;
 	Seq m_seqLower;
 	bool m_partialSeq;
+	size_t m_synchronizers;
 	StoreCallback* m_callback;
 
 
@@ -628,7 +631,8 @@ public:
 	template <typename Store>
 	void map(Synchronizable<Store>& store)
 	{
-		m_storeMap.insert(std::make_pair(store.hash(), &store.journal()));
+		if(m_storeMap.insert(std::make_pair(store.hash(), &store.journal())).second)
+			store.journal().share(true);
 
 		if(Synchronizable<Store>::MaxMessageSize > m_encodeBuffer.size())
 			m_encodeBuffer.resize(Synchronizable<Store>::MaxMessageSize);
@@ -640,7 +644,8 @@ public:
 	template <typename Store>
 	void unmap(Synchronizable<Store>& store)
 	{
-		m_storeMap.erase(store.hash());
+		if(m_storeMap.erase(store.hash()))
+			store.journal().share(false);
 
 		for(Connections::iterator it = m_connections.begin(); it != m_connections.end();
 		    ++it)
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 3e1b516..6af8ae1 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -227,6 +227,7 @@ StoreJournal::StoreJournal(
 	, m_seq(1)
 	, m_seqLower()
 	, m_partialSeq()
+	, m_synchronizers()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
 {
 	// Size is 32 bit, where size_t might be 64. But I guess that the
@@ -377,6 +378,28 @@ void StoreJournal::changed(StoreJournal::Key key, size_t len, bool insertIfNew)
 	}
 }
 
+/*!
+ * \brief Administrate that a Synchronizer uses or does not use the store anymore.
+ */
+void StoreJournal::share(bool add)
+{
+	if(add)
+		m_synchronizers++;
+	else if(m_synchronizers)
+		m_synchronizers--;
+}
+
+/*!
+ * \brief Check if the store is used by more than one Synchronizer.
+ *
+ * In that case, a Synchronizer must record all changes, as it does not know whether there are
+ * connections that have to forward them.
+ */
+bool StoreJournal::isShared() const
+{
+	return m_synchronizers > 1U;
+}
+
 /*!
  * \brief Update the meta data of the given key.
  * \details This function does a binary search through \c m_changes, limited by [lower,upper[.
@@ -1213,7 +1236,7 @@ void SyncConnection::decode(void* buffer, size_t len)
 		process(j, synchronizer().encodeBuffer());
 
 		StoreJournal::Seq seq = 0;
-		bool recordAll = synchronizer().isSynchronizing(j, *this);
+		bool recordAll = j.isShared() || synchronizer().isSynchronizing(j, *this);
 		seq = it->second->decodeUpdates(buffer, len, recordAll, scratch);
 		if(!seq) {
 			bye(id);
-- 
2.43.0


From 3ccd49443df357e6236520d7a393214f2ef22990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 065/108] fix: heap overflow when forwarding overlapping
 updates

---
 include/libstored/synchronizer.h | 13 +++++++++++++
 src/synchronizer.cpp             | 31 +++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index dadfc6a..1d459d8 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -160,6 +160,7 @@ public:
 	static void encodeHash(ProtocolLayer& p, char const* hash, bool last = false);
 	Seq encodeBuffer(ProtocolLayer& p, bool last = false);
 	Seq encodeUpdates(uint8_t*& buf, Seq sinceSeq);
+	size_t updatesSize(Seq sinceSeq) const;
 
 	static char const* decodeHash(void*& buffer, size_t& len);
 	Seq decodeBuffer(void*& buffer, size_t& len);
@@ -209,6 +210,7 @@ protected:
 
 	void encodeUpdates(uint8_t*& buf, Seq sinceSeq, size_t lower, size_t upper);
 	void encodeUpdate(uint8_t*& buf, ObjectInfo& o);
+	size_t updatesSize(Seq sinceSeq, size_t lower, size_t upper) const;
 
 	void encodeKey(ProtocolLayer& p, Key key);
 	Key decodeKey(uint8_t*& buffer, size_t& len, bool& ok);
@@ -708,6 +710,17 @@ public:
 		return m_encodeBuffer.data();
 	}
 
+	/*!
+	 * \brief Return a buffer to encode messages in, which has at least the given size.
+	 */
+	void* encodeBuffer(size_t size)
+	{
+		if(size > m_encodeBuffer.size())
+			m_encodeBuffer.resize(size);
+
+		return m_encodeBuffer.data();
+	}
+
 protected:
 	SyncConnection* toConnection(ProtocolLayer& connection) const;
 
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 6af8ae1..7143e0f 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -685,6 +685,32 @@ void StoreJournal::encodeUpdates(
 	encodeUpdates(buf, sinceSeq, pivot + 1, upper);
 }
 
+/*!
+ * \brief Compute the size of the output of #encodeUpdates().
+ */
+size_t StoreJournal::updatesSize(StoreJournal::Seq sinceSeq) const
+{
+	return updatesSize(sinceSeq, 0, m_changes.size());
+}
+
+/*!
+ * \brief Implementation of #updatesSize().
+ */
+size_t StoreJournal::updatesSize(StoreJournal::Seq sinceSeq, size_t lower, size_t upper) const
+{
+	if(lower >= upper)
+		return 0;
+
+	size_t pivot = (upper - lower) / 2 + lower;
+	ObjectInfo const& o = m_changes[pivot];
+	if(toLong(o.highest) < sinceSeq)
+		return 0;
+
+	return updatesSize(sinceSeq, lower, pivot)
+	       + (toLong(o.seq) >= sinceSeq ? 2U * keySize() + o.len : 0U)
+	       + updatesSize(sinceSeq, pivot + 1, upper);
+}
+
 /*!
  * \brief Encode one change.
  */
@@ -1105,6 +1131,11 @@ StoreJournal::Seq SyncConnection::process(StoreJournal& store, void* encodeBuffe
 		// No recent changes.
 		return 0;
 
+	if(encodeBuffer == synchronizer().encodeBuffer())
+		// Usually it is large enough, but bogus updates may result in overlapping changes.
+		encodeBuffer = synchronizer().encodeBuffer(
+			1U /*cmd*/ + sizeof(Id) + store.updatesSize(s->second.seq));
+
 	uint8_t* encodeBuffer_ = static_cast<uint8_t*>(encodeBuffer);
 	encodeCmd(Update, encodeBuffer_);
 	encodeId(s->second.idOut, encodeBuffer_);
-- 
2.43.0


From ec00393e053224089c31a11ab6cbe24424cd4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 066/108] fix: the initial state of a store is not forwarded to
 existing connections

---
 include/libstored/synchronizer.h |  2 ++
 src/synchronizer.cpp             | 27 ++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 1d459d8..38b54a3 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -124,6 +124,7 @@ public:
 	void changed(Key key, size_t len, bool insertIfNew = true);
 	void share(bool add);
 	bool isShared() const;
+	Seq bufferSeq() const;
 	bool hasChanged(Key key, Seq since) const;
 	bool hasChanged(Seq since) const;
 
@@ -229,6 +230,7 @@ private:
 	impl::KeyCodec const* m_keyCodec;
 	Seq m_seq;
 	Seq m_seqLower;
+	Seq m_bufferSeq;
 	bool m_partialSeq;
 	size_t m_synchronizers;
 	StoreCallback* m_callback;
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 7143e0f..6776c1f 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -226,6 +226,7 @@ StoreJournal::StoreJournal(
 	, m_keyCodec()
 	, m_seq(1)
 	, m_seqLower()
+	, m_bufferSeq()
 	, m_partialSeq()
 	, m_synchronizers()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
@@ -400,6 +401,15 @@ bool StoreJournal::isShared() const
 	return m_synchronizers > 1U;
 }
 
+/*!
+ * \brief Returns the sequence number of the last time the full buffer was replaced.
+ * \see #decodeBuffer()
+ */
+StoreJournal::Seq StoreJournal::bufferSeq() const
+{
+	return m_bufferSeq;
+}
+
 /*!
  * \brief Update the meta data of the given key.
  * \details This function does a binary search through \c m_changes, limited by [lower,upper[.
@@ -648,7 +658,7 @@ StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
 
 	len -= bufferSize();
 	m_partialSeq = true;
-	Seq seq_ = this->seq();
+	Seq seq_ = m_bufferSeq = this->seq();
 	for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it)
 		it->seq = it->highest = toShort(seq_);
 	return bumpSeq();
@@ -1127,6 +1137,16 @@ StoreJournal::Seq SyncConnection::process(StoreJournal& store, void* encodeBuffe
 	if(s == m_store.end())
 		// Unknown store.
 		return 0;
+	if(!s->second.source && s->second.seq <= store.bufferSeq()) {
+		// The full store has been replaced since the last Welcome we gave.  Let the other
+		// party request it again.
+		for(IdInMap::iterator it = m_idIn.begin(); it != m_idIn.end(); ++it)
+			if(it->second == &store) {
+				bye(it->first);
+				break;
+			}
+		return 0;
+	}
 	if(!store.hasChanged(s->second.seq))
 		// No recent changes.
 		return 0;
@@ -1266,6 +1286,11 @@ void SyncConnection::decode(void* buffer, size_t len)
 		StoreJournal& j = *it->second;
 		process(j, synchronizer().encodeBuffer());
 
+		it = m_idIn.find(id);
+		if(it == m_idIn.end())
+			// Update is outdated.
+			break;
+
 		StoreJournal::Seq seq = 0;
 		bool recordAll = j.isShared() || synchronizer().isSynchronizing(j, *this);
 		seq = it->second->decodeUpdates(buffer, len, recordAll, scratch);
-- 
2.43.0


From f5b36aaa1453466ddf941ece5e5301ebdc214337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 067/108] fix: comparing a value with a pipe exit value swaps
 the operands

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 23d384a..2ed3827 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -827,7 +827,7 @@ public:
 		}                                                                \
 		friend bool operator op(type const& x, ExitValue<type> const& v) \
 		{                                                                \
-			return v.get() op x;                                     \
+			return x op v.get();                                     \
 		}
 
 	EXITVALUE_COMPARE_OP(==)
-- 
2.43.0


From 3b5df4b1dc7e07c6f5d75b8a42b0ef7a0e69a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 068/108] fix: moving a pipe exit value loses its value

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 2ed3827..171e74e 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -787,7 +787,7 @@ public:
 	ExitValue(ExitValue&& v) noexcept
 		: m_p{v.m_p}
 	{
-		if(m_p)
+		if(!m_p)
 			new(m_v.data()) type{std::move(v.value())};
 	}
 
-- 
2.43.0


From 0974016ad1c881067216c0eeaa19c36058030d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 069/108] fix: casting through a pipe returns a dangling
 reference

---
 include/libstored/pipes.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 171e74e..53b89f9 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -563,14 +563,32 @@ public:
 
 	decltype(auto) exit_cast(type_in x) const
 	{
-		return Last::exit_cast(Init::exit_cast(x));
+		decltype(auto) y = Init::exit_cast(x);
+		using y_type = decltype(y);
+
+		// Do not return a reference to (something in) y when it goes
+		// out of scope.
+		using ret_type = decltype(Last::exit_cast(std::forward<y_type>(y)));
+		using return_type = std::conditional_t<
+			std::is_reference<y_type>::value, ret_type, std::decay_t<ret_type>>;
+
+		return static_cast<return_type>(Last::exit_cast(std::forward<y_type>(y)));
 	}
 
 	static constexpr bool has_exit_cast = Init::has_exit_cast || Last::has_exit_cast;
 
 	decltype(auto) entry_cast(type_out x) const
 	{
-		return Init::entry_cast(Last::entry_cast(x));
+		decltype(auto) y = Last::entry_cast(x);
+		using y_type = decltype(y);
+
+		// Do not return a reference to (something in) y when it goes
+		// out of scope.
+		using ret_type = decltype(Init::entry_cast(std::forward<y_type>(y)));
+		using return_type = std::conditional_t<
+			std::is_reference<y_type>::value, ret_type, std::decay_t<ret_type>>;
+
+		return static_cast<return_type>(Init::entry_cast(std::forward<y_type>(y)));
 	}
 
 	static constexpr bool has_entry_cast = Init::has_entry_cast || Last::has_entry_cast;
-- 
2.43.0


From 24c9a0bbcf48f872bf9224196ddcd6a42f21e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 070/108] fix: trigger only tries the first pipe segment

---
 include/libstored/pipes.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 53b89f9..8b1dc30 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -628,7 +628,36 @@ private:
 		return Last_::exit_cast(Init::extract());
 	}
 
-	template <typename Init_, typename Last_, std::enable_if_t<Init_::has_trigger, int> = 0>
+	template <
+		typename Init_, typename Last_,
+		std::enable_if_t<Init_::has_trigger && Last_::has_trigger, int> = 0>
+	std::decay_t<type_out> trigger_helper(bool* triggered)
+	{
+		bool triggered_ = false;
+
+		{
+			decltype(auto) x = Init_::trigger(&triggered_);
+
+			if(triggered_) {
+				if(triggered)
+					*triggered = true;
+
+				return Last_::inject(x);
+			}
+		}
+
+		// Init did not provide any data, so try Last.
+		decltype(auto) ret = Last_::trigger(&triggered_);
+
+		if(triggered)
+			*triggered = triggered_;
+
+		return ret;
+	}
+
+	template <
+		typename Init_, typename Last_,
+		std::enable_if_t<Init_::has_trigger && !Last_::has_trigger, int> = 0>
 	decltype(auto) trigger_helper(bool* triggered)
 	{
 		bool triggered_ = false;
-- 
2.43.0


From 79043a4ec9333e95b40589ec15f10799e013984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 071/108] fix: overflow in comparing integers using similar_to

---
 include/libstored/pipes.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 8b1dc30..0c49184 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -17,6 +17,7 @@
 #	include <array>
 #	include <chrono>
 #	include <cmath>
+#	include <cstdint>
 #	include <cstdio>
 #	include <functional>
 #	include <limits>
@@ -2061,9 +2062,13 @@ template <typename T, unsigned int order>
 struct similar_to<T, order, false> {
 	bool operator()(T const& a, T const& b) const
 	{
-		T margin = std::max(std::abs(a), std::abs(b))
-			   / static_cast<T>(impl::pow<10, order>::value);
-		T diff = std::abs(a - b);
+		// Use unsigned math, as abs() and the difference may not fit in T.
+		auto x = static_cast<std::uintmax_t>(a);
+		auto y = static_cast<std::uintmax_t>(b);
+		std::uintmax_t margin =
+			std::max(a < T{} ? 0U - x : x, b < T{} ? 0U - y : y)
+			/ static_cast<std::uintmax_t>(impl::pow<10, order>::value);
+		std::uintmax_t diff = a < b ? y - x : x - y;
 		return diff <= margin;
 	}
 };
-- 
2.43.0


From 079fc83d6d30a7c47f98993f8149555dd58ccc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 072/108] fix: clear revents of pollables that are not ready
 anymore

---
 src/poller.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index 46aee9e..24a989e 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -375,13 +375,11 @@ int ZmqPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		zmq_pollitem_t& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & ZMQ_POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -448,13 +446,11 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		struct pollfd& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -548,6 +544,7 @@ int LoopPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 				event(revents, i);
 				break;
 			case EAGAIN:
+				event(0, i);
 				break;
 			default:
 				if(!res)
-- 
2.43.0


From 8df2acf6ae768ddb66a14db06198ea1ac5c8bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 073/108] fix: let PollPoller report an invalid fd as error
 instead of a timeout

---
 src/poller.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index 24a989e..45e9087 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -456,7 +456,8 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 					revents.set(Pollable::PollInIndex);
 				if(item.revents & POLLOUT) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollOutIndex);
-				if(item.revents & POLLERR) // NOLINT(hicpp-signed-bitwise)
+				// NOLINTNEXTLINE(hicpp-signed-bitwise)
+				if(item.revents & (POLLERR | POLLNVAL))
 					revents.set(Pollable::PollErrIndex);
 				if(item.revents & POLLPRI) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollPriIndex);
-- 
2.43.0


From 20555e9abdc5d024508f05c0a0d40db3e07d8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 074/108] fix: find ZeroMQ sockets by pointer in
 Poller::modify() and remove()

---
 include/libstored/poller.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..8e9cec4 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1169,8 +1169,7 @@ public:
 	struct compare_socket {
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
-			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From 1d6636e9df43d8ac1e83cdc03d5aa73c2b7a2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 075/108] fix: do not keep the replaced pollable in
 Poller::modify()

---
 include/libstored/poller.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 8e9cec4..adb82bb 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1250,9 +1250,17 @@ private:
 
 		T* p = static_cast<T*>(*it);
 		stored_assert(p);
-		void* user_data = p->user_data;
 		remove(*p);
-		return add<T, A>(a, user_data, events);
+		p->events = events;
+		int res = add(*p);
+
+		if(res) {
+			delete p; // NOLINT(cppcoreguidelines-owning-memory)
+			*it = m_pollables.back();
+			m_pollables.pop_back();
+		}
+
+		return res;
 	}
 
 	template <typename T, typename A, typename C>
-- 
2.43.0


From 0b702bb018645512c3d6e03208574bd50635bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 076/108] fix: block in Poller::poll(long) for any negative
 timeout

---
 include/libstored/poller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index adb82bb..17a5cbb 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1067,7 +1067,7 @@ public:
 	Result const& poll(long timeout_us, bool suspend = false)
 	{
 		STORED_UNUSED(suspend)
-		return base::poll((int)(timeout_us / 1000L));
+		return base::poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 	}
 
 	struct compare_fd {
-- 
2.43.0


From 0868e8bbdc39e4fad59ae469a7f8cab574996644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 077/108] fix: block indefinitely in PolledFileLayer::block()
 when requested

---
 src/protocol.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 3abd869..e707b7b 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1791,7 +1791,9 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Round up, such that we don't return early.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)((timeout_us + 999L) / 1000L));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
-- 
2.43.0


From a56f7244f28ba61e86ccd9a4b5c5e9163d4ea46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 078/108] fix: block indefinitely in ZmqLayer::block() when
 requested

---
 src/zmq.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..12eb2e0 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,7 +134,9 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Round up, such that we don't return early.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)((timeout_us + 999L) / 1000L));
 
 		if(pres.empty()) {
 			err = errno;
-- 
2.43.0


From 78296219d52e11b79732be6649d435395af8468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 079/108] fix: report success of ZmqLayer::encode() after
 blocking

---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 12eb2e0..a906609 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -298,7 +298,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From 9a33b74d8a4157465635ac40e62322c2d81f5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 080/108] fix: make room for a partial message in an empty
 MessageFifo

---
 include/libstored/fifo.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 20036d5..6876e3e 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1030,7 +1030,7 @@ public:
 #    endif
 		}
 
-		if(partial == 0 && m_msg.empty()) {
+		if(m_msg.empty()) {
 			// Note: Do not check wp == rp to determine if it is
 			// empty; there may still be zero-length messages,
 			// which refer to the current position in the buffer,
@@ -1038,8 +1038,13 @@ public:
 			// reset_back().
 
 			// When empty, the other side ignores the wp/rp, so we
-			// can safely tinker with it.
-			wp = m_wp_partial = wp_partial = 0;
+			// can safely tinker with it.  Keep the partial message
+			// that is not visible to the other side yet.
+			if(partial && wp)
+				m_buffer.move(0, wp, partial);
+
+			wp = 0;
+			m_wp_partial = wp_partial = (buffer_pointer)partial;
 			rp = 0;
 			m_wp.store(wp, std::memory_order_relaxed);
 			m_rp.store(rp, std::memory_order_relaxed);
-- 
2.43.0


From fab5395abe360acfeae1dab7a32bd76caba2e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 081/108] fix: drop the partial message in
 FifoLoopback1::reset()

---
 include/libstored/fifo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 6876e3e..0a9903c 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1278,6 +1278,8 @@ public:
 	{
 		base::reset();
 		setLastError(0);
+		// Forget about the partially encoded message, if any.
+		m_fifo.reset_back();
 		m_drop = false;
 	}
 
-- 
2.43.0


From 859867519441200acca0ad9cfab27a3b321cff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 082/108] fix: do not copy an empty ZeroMQ message part to a
 null buffer

---
 src/zmq.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index a906609..9c7310f 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -221,7 +221,9 @@ int ZmqLayer::recv1(long timeout_us)
 			m_bufferCapacity = newBufferSize;
 		}
 
-		memcpy(static_cast<char*>(m_buffer) + m_bufferSize, zmq_msg_data(&msg), msgSize);
+		if(msgSize)
+			memcpy(static_cast<char*>(m_buffer) + m_bufferSize, zmq_msg_data(&msg),
+			       msgSize);
 		m_bufferSize = newBufferSize;
 	}
 
-- 
2.43.0


From b710992f8de3378bb36f225b15fa16160e6392d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 083/108] fix: do not let SerialLayer drop received carriage
 returns

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index e707b7b..675a2d0 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3735,7 +3735,7 @@ SerialLayer::SerialLayer(
 
 	config.c_iflag &=
 		// NOLINTNEXTLINE(hicpp-signed-bitwise)
-		(tcflag_t) ~(BRKINT | ICRNL | INLCR | PARMRK | INPCK | ISTRIP | IXON | IXOFF);
+		(tcflag_t) ~(BRKINT | ICRNL | IGNCR | INLCR | PARMRK | INPCK | ISTRIP | IXON | IXOFF);
 	if(xonxoff) {
 		// NOLINTNEXTLINE(hicpp-signed-bitwise)
 		config.c_iflag |= (tcflag_t)(IXON | IXOFF);
-- 
2.43.0


From 1fb3ef12f895affc2c26f4bca50fecebc28c0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 084/108] fix: let SerialLayer::recv() wait for data

---
 src/protocol.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 675a2d0..0871b52 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3757,7 +3757,9 @@ SerialLayer::SerialLayer(
 		return;
 #    endif
 	}
-	config.c_cc[VMIN] = 0;
+	// With VMIN = 0, read() reports EOF instead of EAGAIN when there is no data,
+	// and recv() would never wait.
+	config.c_cc[VMIN] = 1;
 	config.c_cc[VTIME] = 0;
 
 	speed_t speed = baud_to_speed_t(baud);
-- 
2.43.0


From 25d2c40285cfa791ce2ec0679bf1443ba7ec9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 085/108] fix: do not override the Amplifier of an integer type
 when there is no override

---
 include/libstored/components.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index e5d6e0c..f46d11c 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1635,13 +1635,15 @@ protected:
 	{
 		type output = override_();
 
-		if(!std::isnan(output)) {
+		// If there is no override value, override_() returns NaN, but only if the type
+		// supports that.
+		if(overrideObject().valid() && !std::isnan(output)) {
 			// Keep override value.
 		} else {
 			if(!enabled())
 				output = input;
-			else if(std::isnan(output))
-				output = input * gain() + offset();
+			else
+				output = (type)(input * gain() + offset());
 
 			output = std::min(std::max(low(), output), high());
 		}
-- 
2.43.0


From 3466cc9b110d2c631b7f187f94115e685039ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 086/108] fix: compute PinIn::input() when the input variable
 is not available

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index f46d11c..53ae368 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1809,7 +1809,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<Bound::template valid<I>(), int> = 0>
 	bool input() const noexcept
 	{
 		return inputObject().get();
@@ -1819,7 +1819,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<!Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<!Bound::template valid<I>(), int> = 0>
 	bool input() noexcept
 	{
 		return (*this)();
-- 
2.43.0


From 640eeb8d83d71dde6970a9d0db6d26ee8a744834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 087/108] fix: apply the PID parameters on the first run, also
 with a reset variable

---
 include/libstored/components.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 53ae368..60cd5e0 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2637,12 +2637,13 @@ protected:
 
 			bool doReset = false;
 			decltype(auto) reset_o = resetObject();
-			if(reset_o.valid()) {
-				if(unlikely(reset_o.get())) {
-					doReset = true;
-					reset_o = false;
-				}
-			} else if(unlikely(std::isnan(m_y_prev))) {
+			if(unlikely(reset_o.valid() && reset_o.get())) {
+				doReset = true;
+				reset_o = false;
+			}
+
+			if(unlikely(std::isnan(m_y_prev))) {
+				// First run.
 				doReset = true;
 			}
 
-- 
2.43.0


From 2b5bc2f3b13058ba716810ec11c733be6a198556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 088/108] fix: PID::isHealthy() with a negative Kp

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 60cd5e0..9b088ab 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2611,7 +2611,7 @@ public:
 	 */
 	bool isHealthy() const noexcept
 	{
-		auto k = Ki();
+		auto k = std::fabs(Ki());
 		if(k == 0)
 			return true;
 
-- 
2.43.0


From 078defc6e059e9bb22e4c3d9aea282ffa865b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 089/108] fix: PulseWave with a negative phase

---
 include/libstored/components.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 9b088ab..2b2acb9 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3340,6 +3340,9 @@ public:
 								  * period,
 						period);
 
+				if(t < 0)
+					t += period;
+
 				if(t < pulse)
 					output = amplitude();
 				else
-- 
2.43.0


From 6ea3c826421d5dad962c2ce27460ce97cb483f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 090/108] fix: do not count the first input twice in the
 HighPass filter

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 2b2acb9..4248989 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3709,14 +3709,14 @@ protected:
 
 				if(unlikely(std::isnan(m_alpha))) {
 					doReset = true;
-					m_prev_output = input;
+					m_prev_output = m_prev_input = input;
 				}
 
 				if(unlikely(doReset)) {
 					recomputeCoefficients();
 
 					if(std::isnan(m_prev_output))
-						m_prev_output = input;
+						m_prev_output = m_prev_input = input;
 				}
 
 				if(LowPass) {
-- 
2.43.0


From d14f5d11023bf6fae9a057e443b95b7143bcc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 091/108] fix: apply the acceleration limit of a Ramp without
 speed limit

---
 include/libstored/components.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 4248989..d7c2edb 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4106,15 +4106,19 @@ protected:
 				if(a == std::numeric_limits<type>::infinity()) {
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
-				} else if(a > 0) {
+				} else if(a > 0 && sl < std::numeric_limits<type>::infinity()) {
 					auto v_steps = std::lround(sl / a);
 					a = sl / (type)v_steps;
 				}
 
 				m_adt = a * dt;
 				m_v_ = a > 0 ? (type_)std::lround(v / a) : 0;
-				m_v_max_ =
-					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
+				if(!(a > 0))
+					m_v_max_ = 0;
+				else if(sl < std::numeric_limits<type>::infinity())
+					m_v_max_ = std::max<type_>(1, (type_)std::lround(sl / a));
+				else
+					m_v_max_ = std::numeric_limits<type_>::max();
 				m_x_ = 0;
 				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
 				m_start = m_x;
-- 
2.43.0


From 75b80698ab4b61227a93eb4b64412f8da8e7a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 092/108] fix: do not exceed the acceleration limit of a Ramp

---
 include/libstored/components.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index d7c2edb..a7a6d96 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4107,8 +4107,13 @@ protected:
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
 				} else if(a > 0 && sl < std::numeric_limits<type>::infinity()) {
-					auto v_steps = std::lround(sl / a);
-					a = sl / (type)v_steps;
+					// Let the speed limit be a multiple of a, but don't exceed
+					// the acceleration limit (except for rounding errors).
+					auto v_steps = std::ceil(
+						sl / a
+						* ((type)1
+						   - (type)4 * std::numeric_limits<type>::epsilon()));
+					a = sl / std::max<type>(1, v_steps);
 				}
 
 				m_adt = a * dt;
-- 
2.43.0


From 7dbd249e587f9df75884c2fadc4429e210ed0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 093/108] fix: a Ramp without limits is healthy

---
 include/libstored/components.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index a7a6d96..8aacce4 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4051,6 +4051,10 @@ public:
 			// No limit set.
 			return true;
 
+		if(m_v_max_ == 0)
+			// No limit in effect.
+			return true;
+
 		if(!(m_adt > 0))
 			// That's not good. Numbers are probably already to far apart.
 			return false;
-- 
2.43.0


From 279d409233efede18bdffa756768bc1fc94c2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 094/108] fix: keep the speed of a Ramp when reset while
 running

---
 include/libstored/components.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 8aacce4..932fd7e 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4121,7 +4121,7 @@ protected:
 				}
 
 				m_adt = a * dt;
-				m_v_ = a > 0 ? (type_)std::lround(v / a) : 0;
+				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
 				if(!(a > 0))
 					m_v_max_ = 0;
 				else if(sl < std::numeric_limits<type>::infinity())
@@ -4129,7 +4129,7 @@ protected:
 				else
 					m_v_max_ = std::numeric_limits<type_>::max();
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = stop(m_v_);
 				m_start = m_x;
 			}
 
@@ -4139,7 +4139,7 @@ protected:
 				m_start = output = input;
 				m_v_ = (type_)std::lround((output - m_x) / m_adt);
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = stop(m_v_);
 			} else {
 				auto err = input - m_x;
 
@@ -4209,6 +4209,14 @@ protected:
 		return output;
 	}
 
+	/*!
+	 * \brief Compute the distance required to stop, after the current tick.
+	 */
+	static constexpr type_ stop(type_ v) noexcept
+	{
+		return v * (v < 0 ? -v - 1 : v - 1) / 2;
+	}
+
 private:
 	Bound m_o;
 	type m_adt{std::numeric_limits<type>::quiet_NaN()};
-- 
2.43.0


From fec9dc31194eefdbc9f719638521de1ad408481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 095/108] fix: slow down when the speed limit of a Ramp is
 lowered

---
 include/libstored/components.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 932fd7e..e9896f3 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4158,6 +4158,9 @@ protected:
 							x_stop_ += v_++;
 						else
 							x_stop_ -= ++v_;
+					} else if(v_ > m_v_max_) {
+						// Speed limit was lowered. Slow down.
+						x_stop_ -= --v_;
 					}
 
 					if(m_v_ > 0 && err < (type)(x_stop_ + v_ + 1) * m_adt) {
@@ -4180,6 +4183,9 @@ protected:
 							x_stop_ += v_--;
 						else
 							x_stop_ -= --v_;
+					} else if(v_ < -m_v_max_) {
+						// Speed limit was lowered. Slow down.
+						x_stop_ -= ++v_;
 					}
 
 					if(m_v_ < 0 && err > (type)(x_stop_ + v_ - 1) * m_adt) {
-- 
2.43.0


From 51d9f981c8481995d918a8c1643fa6bbff48601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 096/108] fix: the length of ZmqClient.readMem() is hexadecimal

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 7c44f99..e6a2ede 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1612,7 +1612,7 @@ class ZmqClient(QObject):
         return self.req(b'v').decode()
 
     def readMem(self, pointer, size):
-        rep = self.req(('R%x %d' % (pointer, size)).encode()).decode()
+        rep = self.req(('R%x %x' % (pointer, size)).encode()).decode()
 
         if rep == '?':
             return None
-- 
2.43.0


From 049aa3232e3a30bbda1901334f989adc5f315ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 097/108] fix: only let a ZmqClient object have a value that
 can be written

---
 python/libstored/zmq_client.py | 35 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index e6a2ede..0a04376 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -341,24 +341,13 @@ class Object(QObject):
     # Write value to server.
     @Slot(object, result=bool)
     def write(self, value = None):
-        if not value is None:
-            self.set(value)
         return self._write(value)
 
     @Slot(object)
     def asyncWrite(self, value = None):
-        if not value is None:
-            self.set(value)
-        self._write(value, lambda rep, value=value: self._asyncWriteCallback(value, rep))
-
-    def _asyncWriteCallback(self, value, rep):
-        if rep == b'!':
-            # A concurrent async read may have overwritten our value,
-            # which was just set. Set it here again.
-            if not value is None:
-                self.set(value)
+        self._write(value, True)
 
-    def _write(self, value, asyncCallback=None):
+    def _write(self, value, asynchronous=False):
         if self._client is None:
             return False
 
@@ -368,15 +357,23 @@ class Object(QObject):
         if data is None:
             return False
 
-        req = b'w' + data + self.shortName(asyncCallback is None).encode()
+        req = b'w' + data + self.shortName(not asynchronous).encode()
 
-        if not asyncCallback is None:
-            self._client.reqAsync(req, asyncCallback)
-            # Assume it was successful.
+        def written(rep):
+            # Set what was actually written, as the value may have been
+            # converted to the type of the object.
+            if rep == b'!' and not value is None:
+                self.set(self._decode(data))
+            return rep == b'!'
+
+        if asynchronous:
+            # Assume it is going to be successful. A concurrent async read may
+            # overwrite our value, so set it again upon the response.
+            written(b'!')
+            self._client.reqAsync(req, written)
             return True
         else:
-            rep = self._client.req(req)
-            return rep == b'!'
+            return written(self._client.req(req))
 
 
     def _encodeHex(self, data, zerostrip = False):
-- 
2.43.0


From af25b660aaf8e36066b08a90bd2ae3b45d9a27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 098/108] fix: do not handle the error response of a ZmqClient
 stream as data

---
 python/libstored/zmq_client.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 0a04376..7a71ce3 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -794,19 +794,30 @@ class Stream(object):
         return self._raw
 
     def poll(self, suffix='', callback=None):
-        req = b's' + (self.name + suffix).encode()
+        # Let the response end with a marker, to be able to distinguish data
+        # from an error, e.g., when there is no such stream (yet).
+        req = b's' + (self.name + suffix + '!').encode()
         if callback is None:
-            return self._decode(self.client.req(req))
+            return self._decode(self.client.req(req), suffix)
         else:
-            return self.client.reqAsync(req, lambda x: callback(self._decode(x)))
+            return self.client.reqAsync(req, lambda x: callback(self._decode(x, suffix)))
+
+    def _decode(self, x, suffix=''):
+        suffix = suffix.encode()
+        if x is None or not x.endswith(suffix + b'!'):
+            # No data.
+            x = suffix = b''
+        else:
+            x = x[:len(x) - len(suffix) - 1]
 
-    def _decode(self, x):
         if not self._decoder is None:
             x = self._decoder.fill(x)
             if self._finishing:
                 x += self._decoder.finish()
                 self._reset()
 
+        x += suffix
+
         if not self.raw:
             x = x.decode(errors='backslashreplace')
         return x
-- 
2.43.0


From d462ee4d4a0675e40f144f6a4c8a146aa649e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 099/108] fix: truncate strings written by the ZmqClient at a
 character

---
 python/libstored/zmq_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 7a71ce3..b60c087 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -393,6 +393,8 @@ class Object(QObject):
             elif dtype == self.Blob:
                 return self._encodeHex(value)
             elif dtype == self.String:
+                # Truncate to the size of the object, but not within a character.
+                value = value.encode()[:self._size].decode(errors='ignore')
                 return self._encodeHex(value.encode()) + b'00'
             elif dtype == self.Pointer32:
                 return ('%x' % value).encode()
-- 
2.43.0


From 647bd1e2bdbe582a03a7b167d65dac3ad5430bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 100/108] fix: CSV samples that do not match the header

---
 python/libstored/csv.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/python/libstored/csv.py b/python/libstored/csv.py
index 03bda4d..4a2b5e3 100644
--- a/python/libstored/csv.py
+++ b/python/libstored/csv.py
@@ -120,7 +120,7 @@ class CsvExport(QObject):
         self._autoFlushed = time.time()
         self._thread = None
         self._queue = None
-        self._dropNext = False
+        self._generation = 0
         self._lock = threading.RLock()
         self._paused = False
         self._postponedAutoRestart = False
@@ -141,15 +141,8 @@ class CsvExport(QObject):
         self.close()
 
     def _clear(self):
-        if self._queue is None:
-            return
-
-        try:
-            self._queue.get(False)
-        except queue.Empty:
-            pass
-
-        self._dropNext = True
+        # Drop all samples that are queued for the previous file.
+        self._generation += 1
 
     def add(self, o):
         if o in self._objects:
@@ -230,6 +223,10 @@ class CsvExport(QObject):
         if self._paused:
             return
 
+        # The columns may change.
+        if self._postponedAutoRestart:
+            self.restart()
+
         now = time.time()
         if t is None:
             t = now
@@ -237,13 +234,10 @@ class CsvExport(QObject):
         data = [t]
         data.extend(map(lambda x: x(), self._objValues))
 
-        if self._postponedAutoRestart:
-            self.restart()
-
         if self._queue is None:
             self._write(data)
         else:
-            self._queue.put(data)
+            self._queue.put((self._generation, data))
 
     def close(self):
         if not self._queue is None:
@@ -274,14 +268,13 @@ class CsvExport(QObject):
 
     def _worker(self):
         while True:
-            d = self._queue.get()
-            if d is None:
+            item = self._queue.get()
+            if item is None:
                 return
+            generation, d = item
             self._lock.acquire()
             try:
-                if self._dropNext:
-                    self._dropNext = False
-                else:
+                if generation == self._generation:
                     self._write(d)
             finally:
                 self._lock.release()
-- 
2.43.0


From 80d87a5da2f52f4193c62b6fabc3074521553c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 101/108] fix: make the decimation of ZmqClient tracing
 settable

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index b60c087..58b9165 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1030,7 +1030,7 @@ class Tracing(Macro):
         return self._decimate
 
     @decimate.setter
-    def _decimate_set(self, decimate):
+    def decimate(self, decimate):
         if not isinstance(decimate, int):
             return
 
-- 
2.43.0


From 00a00c3248fa86d836a7506afd3ae22c3736dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 102/108] fix: separate data before and after flushing an empty
 stream

---
 include/libstored/debugger.h | 6 +++---
 src/debugger.cpp             | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index 9f38471..2ee74fa 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -92,9 +92,9 @@ public:
 
 	bool flush() final
 	{
-		// An empty stream cannot be unblocked by reading it, as it is not listed.
-		if(!empty())
-			block();
+		// Also when it is empty, as a new (compressed) stream must not
+		// start before the end of this one is read.
+		block();
 		return true;
 	}
 
diff --git a/src/debugger.cpp b/src/debugger.cpp
index a029357..cd4c913 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1276,6 +1276,7 @@ Stream<>* Debugger::stream(char s, bool alloc)
 					// Got one.
 					if(!recycle) {
 						recycle = it2->second;
+						recycle->clear();
 					} else {
 						// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 						delete it2->second;
@@ -1314,7 +1315,8 @@ char const* Debugger::streams(void const*& buffer, size_t& len)
 
 	len = 0;
 	for(StreamMap::const_iterator it = m_streams.begin(); it != m_streams.end(); ++it)
-		if(!it->second->empty())
+		if(!it->second->empty() || it->second->blocked())
+			// Also list flushed streams, as they must be read to continue.
 			b[len++] = it->first;
 
 	b[len] = 0;
-- 
2.43.0


From 7e4296fc2db03e951e48bd2c1517709c847da073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 103/108] fix: accept hex values of negative int64 objects in
 the ZmqClient

---
 python/libstored/zmq_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 58b9165..781a1f0 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -409,6 +409,8 @@ class Object(QObject):
             elif not self.isInt():
                 return None
             elif self.isSigned():
+                if value >= 1 << 63:
+                    value -= 1 << 64
                 return self._encodeHex(struct.pack('>q', value)[-self._size:], True)
             else:
                 if value < 0:
-- 
2.43.0


From b43644bf7365bb91e87cb4301b841032baa14ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 104/108] fix: do not poll using a macro that could not be
 defined

---
 python/libstored/zmq_client.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 781a1f0..bd04ca1 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -886,16 +886,16 @@ class Macro(object):
         if isinstance(cmd, str):
             cmd = cmd.encode()
         self._cmds[key] = (cmd, cb)
-        self._update()
 
         # Check if it still works...
-        if cb is None:
-            # No response expected
-            return True
+        if self._update():
+            if cb is None:
+                # No response expected
+                return True
 
-        if self.run():
-            # Success.
-            return True
+            if self.run():
+                # Success.
+                return True
 
         # Rollback.
         self.remove(key)
@@ -911,7 +911,7 @@ class Macro(object):
 
     def _update(self):
         if self._macro is None:
-            return
+            return True
 
         cmds = []
         for c in self._cmds.values():
@@ -919,7 +919,7 @@ class Macro(object):
                 cmds.append(b'e' + self._repsep)
             cmds.append(c[0])
 
-        self._client.assignMacro(self._macro, cmds, self._reqsep)
+        return self._client.assignMacro(self._macro, cmds, self._reqsep)
 
     def run(self, asyncDecode=False):
         if not self._macro is None:
@@ -982,17 +982,17 @@ class Tracing(Macro):
         self._stream = self._client.stream(stream, raw=True)
 
         # Start with sample separator.
-        self.add('e\n', None, 'e')
-
         # We must have a macro, not a simulated Macro instance.
-        if self.macro is None:
+        if not self.add('e\n', None, 'e') or self.macro is None:
             raise ValueError('Cannot get macro for tracing')
 
         t = self.client.time()
         if t is None:
             raise ValueError('Cannot determine time stamp variable')
 
-        self.add(f'r{t.shortName()}', None, 't')
+        if not self.add(f'r{t.shortName()}', None, 't'):
+            raise ValueError('Cannot set macro for tracing')
+
         self._enabled = False
         self._updateTracing(True);
 
@@ -1004,10 +1004,11 @@ class Tracing(Macro):
             pass
 
     def _update(self):
-        super()._update()
+        res = super()._update()
         # Remove existing samples from buffer, as the layout is changing.
         self._stream.reset()
         self._updateTracing()
+        return res
 
     def _updateTracing(self, force=False):
         if self._enabled is None:
-- 
2.43.0


From d938f1e6794080d4c45df3f1e4d72c7e09ff0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 105/108] fix: do not decode trace samples using another layout

---
 python/libstored/zmq_client.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index bd04ca1..a766211 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -836,12 +836,15 @@ class Stream(object):
             self._flushing = False
             self._finishing = True
 
-    def reset(self):
+    def reset(self, drop=False):
         if self._compressed:
             self.client.reqAsync(b'f' + self.name.encode(), lambda x: None)
+
+        if self._compressed or drop:
             # Drop old data, as we missed the start of the stream.
             self.client.reqAsync(b's' + self.name.encode(), lambda x: None)
-            self._reset()
+
+        self._reset()
 
     def _reset(self):
         if self._compressed:
@@ -1003,10 +1006,21 @@ class Tracing(Macro):
         except:
             pass
 
+    def add(self, cmd, cb, key):
+        # Handle pending samples first, as they have the current layout.
+        self.client._reqAsyncFlush()
+        return super().add(cmd, cb, key)
+
+    def remove(self, key):
+        if key in self._cmds:
+            self.client._reqAsyncFlush()
+        return super().remove(key)
+
     def _update(self):
         res = super()._update()
         # Remove existing samples from buffer, as the layout is changing.
-        self._stream.reset()
+        self._stream.reset(drop=True)
+        self._partial = b''
         self._updateTracing()
         return res
 
-- 
2.43.0


From 91c3d8ee24b4e1db8033a73221a4a5dc5185e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 106/108] fix: let the Python names of objects refer to the
 right object

---
 python/libstored/zmq_client.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index a766211..da74a8e 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1139,6 +1139,7 @@ class ZmqClient(QObject):
         self._availableMacros = None
         self._usedMacros = []
         self._objects = None
+        self._pynames = {}
         self._fastPollMacro = None
         self._fastPollTimer = None
         if csv is None:
@@ -1447,6 +1448,7 @@ class ZmqClient(QObject):
                 o.setParent(None)
 
             self._objects = None
+            self._pynames = {}
 
         if not self.csv is None:
             self.csv.close()
@@ -1489,6 +1491,14 @@ class ZmqClient(QObject):
         self._list_init()
         return self.objects
 
+    def __getattr__(self, name):
+        # Python names of objects, as determined by _list_init().
+        wobj = self.__dict__.get('_pynames', {}).get(name)
+        obj = None if wobj is None else wobj()
+        if obj is None:
+            raise AttributeError(f'{type(self).__name__!r} object has no attribute {name!r}')
+        return obj
+
     def pyname(self, name):
         n = re.sub(r'[^A-Za-z0-9/]+', '_', name)
         n = re.sub(r'_*/+', '__', n)
@@ -1521,7 +1531,7 @@ class ZmqClient(QObject):
                 res.append(obj)
                 pyname = self.pyname(obj.name)
                 wobj = weakref.ref(obj)
-                setattr(ZmqClient, pyname, _Property(Object, lambda s, wobj=wobj: obj, constant=True))
+                self._pynames[pyname] = wobj
 
         self._objects = res
 
-- 
2.43.0


From 61bca44c89a270310f3ad6fbc47e09a388dcb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 107/108] fix: use the time variable that is passed to
 ZmqClient

---
 python/libstored/zmq_client.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index da74a8e..11a7d5b 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1354,15 +1354,16 @@ class ZmqClient(QObject):
         if self._t == False:
             # Not found
             return None
-        elif not self._t is None:
+        elif not self._t is None and not isinstance(self._t, str):
             return self._t
 
         # Not initialized.
+        name = self._t
         self._t = False
 
-        if isinstance(self._t, str):
+        if isinstance(name, str):
             # Take the given time variable
-            t = self.find(self._t)
+            t = self.find(name)
         else:
             # Try finding /t (unit)
             t = self.find('/t (')
@@ -1381,9 +1382,9 @@ class ZmqClient(QObject):
             if t is None:
                 # Still not found. Give up.
                 return None
-        elif isinstance(t, list):
+        elif not isinstance(t, Object):
             # Multiple found. Just take first one.
-            t = t[0]
+            t = min(t, key=lambda o: o.name)
         else:
             # One found
             pass
-- 
2.43.0


From f14b8298d27f7d87796f337eb44e76379000ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 108/108] fix: keep track of the oldest change when shifting
 others into the window

When an old change was shifted, the lowest sequence number of changes that were not shifted was
overwritten. These changes were then not shifted in time, and became recent changes after a
wrap-around of the short sequence number.
---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 6776c1f..cc1a436 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -318,7 +318,7 @@ StoreJournal::Seq StoreJournal::bumpSeq(bool force)
 			Seq o_seq = toLong(o.seq);
 			if(m_seq - o_seq > safeRange) {
 				update(o.key, o.len, m_seqLower, 0, m_changes.size());
-				seqLower = m_seqLower;
+				seqLower = std::min(seqLower, m_seqLower);
 			} else
 				seqLower = std::min(seqLower, o_seq);
 		}
-- 
2.43.0

