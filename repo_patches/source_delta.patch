From ce0085336fdd18e55f164c827c5992aca18fa0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 01/34] fix: RingBuf::search reports a match at the first
 readable byte as position 0

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..5ea1b1e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From dc62978ee9e33ac5a5af33789702578ee1f48f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 02/34] fix: RingBuf::resize reserves the slot that marks a
 full buffer

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 5ea1b1e..4939510 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2;
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From 0cd101c8e62180d58d3afeb625ce28643bad6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 03/34] fix: RingBuf::peek and checksum bound the span without
 overflow

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 4939510..9d918c0 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 15af62cf3cba70c0effce0a8ca177db91ddf4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 04/34] fix: adler32 of an empty chunk keeps the running
 checksum

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..8c2d8b1 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* nothing to add */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From d4369bda2035003920567ca1e2f136e3e869377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:48 +0000
Subject: [PATCH 05/34] fix: keep a running event or timer callback alive when
 it deletes itself

---
 source/cyEvent/event/cye_looper.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..6a8d14c 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -287,7 +287,9 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-			c->on_read(c->id, c->fd, kRead, c->param);
+			//the callback may delete its own event, keep it alive
+			event_callback on_read = c->on_read;
+			on_read(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -299,7 +301,9 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			//the callback may delete its own event, keep it alive
+			event_callback on_write = c->on_write;
+			on_write(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -334,7 +338,9 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
+		//the callback may delete its own event, keep it alive
+		event_callback on_read = c->on_read;
+		on_read(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -344,7 +350,9 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		//the callback may delete its own event, keep it alive
+		event_callback on_write = c->on_write;
+		on_write(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -425,7 +433,9 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 #endif
 
 	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+		//the callback may delete its own timer, keep it alive
+		timer_callback on_timer = timer->on_timer;
+		on_timer(id, timer->param);
 	}
 }
 
-- 
2.43.0


From 4370e97d4435ed69cf3c0dbe59ab0d0f94346837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 06/34] fix: do not dispatch a stale ready flag to an event
 registered in the same loop

---
 source/cyEvent/event/cye_looper.cpp | 7 +++++++
 source/cyEvent/event/cye_looper.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 6a8d14c..5d7dc16 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -56,6 +56,7 @@ Looper::event_id_t Looper::register_event(socket_t sockfd,
 	channel.param = param;
 	channel.active = false;
 	channel.timer = false;
+	channel.register_loop = m_loop_counts;
 	channel.on_read = _on_read;
 	channel.on_write = _on_write;
 
@@ -93,6 +94,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	channel.param = timer;
 	channel.active = false;
 	channel.timer = true;
+	channel.register_loop = m_loop_counts;
 	channel.on_read = _on_timer_event_callback;
 	channel.on_write = 0;
 
@@ -286,6 +288,7 @@ void Looper::loop(void)
 		{
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+			if (c->register_loop == m_loop_counts) continue; //slot was reused in this loop, the ready flag is stale
 
 			//the callback may delete its own event, keep it alive
 			event_callback on_read = c->on_read;
@@ -300,6 +303,7 @@ void Looper::loop(void)
 		{
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+			if (c->register_loop == m_loop_counts) continue; //slot was reused in this loop, the ready flag is stale
 
 			//the callback may delete its own event, keep it alive
 			event_callback on_write = c->on_write;
@@ -337,6 +341,7 @@ void Looper::step(void)
 	{
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+		if (c->register_loop == m_loop_counts) continue; //slot was reused in this loop, the ready flag is stale
 
 		//the callback may delete its own event, keep it alive
 		event_callback on_read = c->on_read;
@@ -349,6 +354,7 @@ void Looper::step(void)
 	{
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+		if (c->register_loop == m_loop_counts) continue; //slot was reused in this loop, the ready flag is stale
 
 		//the callback may delete its own event, keep it alive
 		event_callback on_write = c->on_write;
@@ -395,6 +401,7 @@ Looper::event_id_t Looper::_get_free_slot(void)
 			channel.param = nullptr;
 			channel.active = false;
 			channel.timer = false;
+			channel.register_loop = 0;
 
 			channel.on_read = nullptr;
 			channel.on_write = nullptr;
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..da55ec1 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -95,6 +95,7 @@ protected:
 		void *param;
 		bool active;
 		bool timer;
+		uint64_t register_loop;	//m_loop_counts when it was registered
 
 		event_callback on_read;
 		event_callback on_write;
-- 
2.43.0


From 5e710cbf290961cb67b107b1e55dcd3f130420ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 07/34] fix: a stop request racing with the end of the loop
 touched a dead pipe

---
 source/cyEvent/event/cye_looper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 5d7dc16..c061501 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -266,7 +266,10 @@ void Looper::loop(void)
 
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
+	{
+		sys_api::auto_mutex lock(m_lock);
+		m_inner_pipe = &inner_pipe;
+	}
 	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
@@ -317,6 +320,8 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -367,6 +372,8 @@ void Looper::step(void)
 //-------------------------------------------------------------------------------------
 void Looper::push_stop_request(void)
 {
+	//called from other threads, the inner pipe must not be destroyed while it is touched
+	sys_api::auto_mutex lock(m_lock);
 	m_quit_cmd = 1;
 	_touch_inner_pipe();
 }
-- 
2.43.0


From 2bc87352d24c3593a585cade36ff41739b3f714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:50 +0000
Subject: [PATCH 08/34] fix: LockFreeQueue decides full and empty from the
 indexes alone

A stale index made push() report full (or overwrite an unread element) and
pop() report empty, because indexes were compared modulo the queue size and
the lagging item counter was consulted.
---
 source/cyCore/core/cyc_lf_queue.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..9d54036 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -63,15 +63,11 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
-		if (_countToIndex(currentWriteIndex + 1) ==
-			_countToIndex(currentReadIndex))
+		if (currentWriteIndex - currentReadIndex == Q_SIZE - 1)
 		{
-			if (m_count > (Q_SIZE >> 1))
-				// the queue is full
-				return false;
-			else
-				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
-				continue;
+			// the queue is full, certainly: the write index is the older snapshot, so the items between the
+			// two indexes were all in the queue when the read index was taken
+			return false;
 		}
 	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
 
@@ -109,8 +105,7 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From 74c6e640669ec46c580b5da23c9568d3211aee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:51 +0000
Subject: [PATCH 09/34] fix: WorkThread re-arms its wakeup before draining the
 message queue

A message pushed between the last pop and the assignment of the flag did not
wake the worker and stayed in the queue until another message came.
---
 source/cyEvent/event/cye_work_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..0f4b356 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -84,6 +84,9 @@ void WorkThread::_on_message(void)
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
 
+		//set empty flag before draining, a message pushed after the last pop must wake the looper again
+		m_is_queue_empty = true;
+
 		for (;;) {
 			Packet* packet = nullptr;
 			if (!m_message_queue.pop(packet)) break;
@@ -96,9 +99,6 @@ void WorkThread::_on_message(void)
 			Packet::free_packet(packet);
 		}
 	}
-
-	//set empty flag
-	m_is_queue_empty = true;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 6d1e0440d4b580daf6fd0361463bfa44e8c351d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 10/34] fix: a read event with nothing to read does not close
 the connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..9fb0a82 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -225,6 +225,11 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
+	else if (socket_api::is_lasterror_WOULDBLOCK())
+	{
+		//nothing to read yet, wait next socket read time
+		return;
+	}
 	else
 	{
 		//error!
-- 
2.43.0


From a4836e89a1fe4cc4f3bf57d4eadf5310560dbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 11/34] fix: a failed write is not counted in the write
 statistics

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 9fb0a82..e9ff5c3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -254,7 +254,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			if (m_write_statistics && len > 0) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From c183f676e447fce0a022b33c778cb0636db62564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 12/34] fix: keep the connection alive while its send-complete
 callback runs

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index e9ff5c3..f3a5665 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -245,6 +245,9 @@ void TcpConnection::_on_socket_write(void)
 	
 	if (!(m_looper->is_write(m_event_id))) return;
 
+	//a callback may release the last reference of this connection
+	TcpConnectionPtr thisPtr = shared_from_this();
+
 	{
 		sys_api::auto_mutex lock(m_write_buf_lock);
 		m_writebuf_minmax_size.update(m_write_buf.size());
-- 
2.43.0


From 0a88265b12f55c481f8538351c260055f8beef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 13/34] fix: a partly written message is not split by a send
 from another thread

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index f3a5665..faa8d07 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -136,8 +136,11 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
+	//keep the lock until the rest is queued, or the data of another thread may get in between
+	sys_api::mutex_lock(m_write_buf_lock);
+
 	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
+	if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 	{
 		nwrote = socket_api::write(m_socket, buf, len);
 		if (nwrote >= 0)
@@ -170,6 +173,7 @@ void TcpConnection::_send(const char* buf, size_t len)
 
 	//shutdown if socket work with fault
 	if (faultError) {
+		sys_api::mutex_unlock(m_write_buf_lock);
 		m_looper->disable_all(m_event_id);
 		shutdown();
 
@@ -177,10 +181,10 @@ void TcpConnection::_send(const char* buf, size_t len)
 	}
 
 	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
 		//write to write buffer
 		m_write_buf.memcpy_into(buf + nwrote, remaining);
 	}
+	sys_api::mutex_unlock(m_write_buf_lock);
 
 	//enable write event, wait socket ready
 	m_looper->enable_write(m_event_id);
-- 
2.43.0


From d94874b38ccdab4d97b0e7b9975a590051be300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 14/34] fix: a send from another thread racing with the close
 used a destroyed lock

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index faa8d07..eb1ca04 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -74,7 +74,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -94,6 +97,10 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 	else
 	{
+		//write to output buf
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//the connection can't be closed while the lock is held
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -101,9 +108,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -294,12 +298,15 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
-
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
+	{
+		//other threads may be sending
+		sys_api::auto_mutex lock(m_write_buf_lock);
+		//disable all event
+		m_state = kDisconnected;
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+	}
 	
 	//logic callback
 	if (m_on_close) {
@@ -313,10 +320,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 60a108506c42d60780dc58333c12c18ab268cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 15/34] fix: a connect attempt that fails at once leaves no
 socket and event behind

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..e97d7f9 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -60,6 +60,10 @@ bool TcpClient::connect(const Address& addr)
 
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) {
+		CY_LOG(L_ERROR, "create socket error, errno=%d", socket_api::get_lasterror());
+		return false;
+	}
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -79,6 +83,11 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		//nothing must be left of this attempt
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 203a8698369f0a8d6a9ecef207ca89ff7ac0467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 16/34] fix: disconnect cancels a pending connect retry

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index e97d7f9..67c9804 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -183,6 +183,8 @@ void TcpClient::disconnect(void)
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
+		//maybe waiting for next try
+		RELEASE_EVENT(m_looper, m_retry_timer_id);
 		break;
 
 	case TcpConnection::kConnecting:
-- 
2.43.0


From 4937add0546db7d8cbb2139c9bb9e6354c12421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 17/34] fix: disconnecting inside the failed-connect callback
 aborted twice

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 67c9804..2383423 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -116,7 +116,10 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+		//maybe disconnected in the callback
+		if (get_connection_state() == TcpConnection::kConnecting) {
+			_abort_connect(retry_sleep_ms);
+		}
 	}
 	else {
 		//connect success!
-- 
2.43.0


From a5439fbdb5b2708da9fca8c1f58190731ed5731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 18/34] fix: keep the client alive while its failed-connect
 callback runs

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 2383423..9ee391c 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -109,6 +109,9 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 {
 	assert(m_connection == nullptr);
 
+	//the callback may release the last reference
+	TcpClientPtr thisPtr = shared_from_this();
+
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
 		uint32_t retry_sleep_ms = 0;
@@ -207,6 +210,9 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	assert(id == m_retry_timer_id);
 	assert(m_connection == nullptr);
 
+	//the callback may release the last reference
+	TcpClientPtr thisPtr = shared_from_this();
+
 	//remove the timer
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
-- 
2.43.0


From 2fb969622b46de4533ca4bc911816a0293174420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 19/34] fix: a client destroyed while connecting closes its
 socket

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 9ee391c..67227e7 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting, the socket belongs to nobody else
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 6793c3646b5cbbd63a58d4280aa350ce51f7507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 20/34] fix: a stop refused inside a work thread blocked every
 later stop

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..7de6fbc 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -106,7 +106,7 @@ void TcpServer::stop(void)
 	//not running?
 	if (m_running == 0) return;
 	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
+	if (m_shutdown_ing > 0) return;
 
 	//this function can't run in work thread
 	for (auto work : m_work_thread_pool){
@@ -116,6 +116,8 @@ void TcpServer::stop(void)
 		}
 	}
 
+	m_shutdown_ing = 1;
+
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
-- 
2.43.0


From b50a7134dd5ea0f0e4e419ddaf0edceb9c2a8784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 21/34] fix: a work thread missed the end of its last
 connection while stopping

---
 source/cyNetwork/network/cyn_tcp_server.cpp                   | 1 -
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp | 4 +++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h   | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 7de6fbc..5523555 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -169,7 +169,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..74037cd 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..afb604e 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -54,6 +53,7 @@ private:
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
+	bool			m_shutdown_ing;
 
 private:
 	//// called by work thread
-- 
2.43.0


From de1c53a0914cd4a23bff768b9c109e6a5dc31963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 22/34] fix: a connection accepted while the server stops is
 not lost

---
 source/cyNetwork/network/cyn_tcp_server.cpp                 | 6 +++++-
 source/cyNetwork/network/cyn_tcp_server.h                   | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp       | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 5523555..1c67719 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -121,8 +121,12 @@ void TcpServer::stop(void)
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
+}
 
-	//shutdown all connection
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_master_shutdown(void)
+{
+	//shutdown all connection, no new connection will follow this command
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
 	}
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..106647a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_master_shutdown(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..43127d3 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//shutdown all work thread
+		m_server->_on_master_shutdown();
+
 		//stop looper
 		looper->push_stop_request();
 	}
-- 
2.43.0


From d9acb6c0758e675cd03df23ff32497385bf20ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 23/34] fix: the address of a listener that was stopped is
 reported as default

---
 .../network/internal/cyn_tcp_server_master_thread.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 43127d3..dc932dc 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -110,7 +110,8 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	if (index >= m_acceptor_sockets.size()) return address;
 
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	socket_t sfd = std::get<0>(m_acceptor_sockets[index]);
+	if (sfd == INVALID_SOCKET || !socket_api::getsockname(sfd, addr)) return address;
 
 	return Address(addr);
 }
-- 
2.43.0


From 1868a55e00a57f60434424db343d83b7dd1b02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 24/34] fix: a listen socket that can't be made non-blocking is
 closed

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index dc932dc..e92ce6d 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -60,6 +60,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From dcb473f06c9e5e684a1cfe778f70d6fdd61d54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 25/34] fix: a server that was bound but never started releases
 its sockets

---
 .../network/internal/cyn_tcp_server_master_thread.cpp  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index e92ce6d..acaa7b1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,7 +17,15 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	//the server may be never started
+	for (auto& listen_socket : m_acceptor_sockets) {
+		auto& sfd = std::get<0>(listen_socket);
+		if (sfd != INVALID_SOCKET) {
+			socket_api::close_socket(sfd);
+			sfd = INVALID_SOCKET;
+		}
+	}
+	m_acceptor_sockets.clear();
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 391e7ebd26df25b141ab4123998dc0751eed3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 26/34] fix: an Address taken from a socket without a name was
 left uninitialised

---
 source/cyNetwork/network/cyn_address.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..ef9e08f 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,7 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
-- 
2.43.0


From a2f0f24b2253add05e69fa9a220d89c1c4a626e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 27/34] fix: check_connect leaked its socket when it could not
 be made non-blocking

---
 source/cyCore/core/cyc_socket_api.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..d275f05 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -472,7 +472,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
-- 
2.43.0


From fcde5d50384080e80b2fba6f9d52a9b32b588e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 28/34] fix: check_connect overflowed its fd_set with a
 descriptor of FD_SETSIZE or more

---
 source/cyCore/core/cyc_socket_api.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index d275f05..041ccac 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -9,6 +9,7 @@ Copyright(C) thecodeway.com
 #else
 #include <netdb.h>
 #include <netinet/tcp.h>
+#include <poll.h>
 #endif
 #include <fcntl.h>
 
@@ -485,6 +486,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	}
 
 	// wait connect result
+#ifdef CY_SYS_WINDOWS
 	fd_set set_write, set_err;
 
 	FD_ZERO(&set_write);
@@ -495,13 +497,15 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 
 	// check if the socket is ready
 	timeval time_out = { timeout_ms/1000, (timeout_ms%1000) * 1000};
-	int ret = ::select(
-#ifdef CY_SYS_WINDOWS
-		0, 
+	int ret = ::select(0, nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 #else
-		s+1,
+	// unlike select, poll can wait for any socket (fd_set overflows with FD_SETSIZE or more descriptors)
+	struct pollfd poll_fd;
+	poll_fd.fd = s;
+	poll_fd.events = POLLOUT;
+	poll_fd.revents = 0;
+	int ret = ::poll(&poll_fd, 1, timeout_ms<0 ? -1 : timeout_ms);
 #endif
-		nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 
 	if (ret <= 0) {
 		//time out or socket error
@@ -509,7 +513,11 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		return false;
 	}
 
+#ifdef CY_SYS_WINDOWS
 	if (!FD_ISSET(s, &set_write)) {
+#else
+	if (!(poll_fd.revents & POLLOUT)) {
+#endif
 		//socket not ready
 		close_socket(s);
 		return false;
-- 
2.43.0


From 636956e60510762ff95f55434b517213dcdf4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 29/34] fix: set_nodelay called ::setsockopt (found through the
 type of IPPROTO_TCP) and returned success inverted

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 041ccac..2bf2920 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -301,7 +301,7 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 430dac71faf36a00bb6979acf4d80384d0eea26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:21 +0000
Subject: [PATCH 30/34] fix: process and host name of the default log name were
 left unterminated when long

---
 source/cyCore/core/cyc_logger.cpp     | 4 ++--
 source/cyCore/core/cyc_system_api.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..d08e328 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[32] = { 0 };
+		::gethostname(host_name, 31);
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..ae2e6f7 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -51,7 +51,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
+		if (readlink("/proc/self/exe", process_path_name, sizeof(process_path_name) - 1)<0) {
 			strncpy(process_path_name, "unknown", 256);
 		}
 	#endif
@@ -62,7 +62,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 
 	strncpy(module_name, process_name, max_size);
 #endif
-
+	if (max_size > 0) module_name[max_size - 1] = 0;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From a3a62443c87105fa58485760cc48347a09a1077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:21 +0000
Subject: [PATCH 31/34] fix: a log file that could not be opened for appending
 was truncated

---
 source/cyCore/core/cyc_logger.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index d08e328..bd346f5 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -155,10 +155,6 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 	}
 
 	FILE* fp = fopen(thefile.file_path_name.c_str(), "a");
-	if (fp == 0) {
-		//create the log file first
-		fp = fopen(thefile.file_path_name.c_str(), "w");
-	}
 	if (fp == 0) return;
 
 	char timebuf[32] = { 0 };
-- 
2.43.0


From 8c526799e19a02c7eec31118e3e04d0f9643b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:21 +0000
Subject: [PATCH 32/34] fix: the setsockopt error message lacked two of its
 arguments

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 2bf2920..31e6655 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -262,7 +262,7 @@ bool setsockopt(socket_t s, int level, int optname, const void *optval, size_t o
 {
 	if (0 != ::setsockopt(s, level, optname, (const char*)optval, (socklen_t)optlen))
 	{
-		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", get_lasterror());
+		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", level, optname, get_lasterror());
 		return false;
 	}
 	return true;
-- 
2.43.0


From 68ff5d3253649c7a75b673fb6fc69720e6d8a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:46 +0000
Subject: [PATCH 33/34] fix: a case-insensitive option compared an upper-case
 argument letter with itself

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 2678a02..4d47c2f 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -983,7 +983,7 @@ CSimpleOptTempl<SOCHAR>::IsEqual(
     // if this matches then we are doing case-insensitive matching
     if (m_nFlags & a_nArgType) {
 		if (a_cLeft >= 'A' && a_cLeft <= 'Z') a_cLeft = (SOCHAR)tolower(a_cLeft);
-		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cLeft);
+		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cRight);
     }
     return a_cLeft == a_cRight;
 }
-- 
2.43.0


From e05179b97f3484eaf26a8b04c1d2e3f08eae532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:13 +0000
Subject: [PATCH 34/34] fix: the option parser moved arguments with memcpy
 between overlapping ranges

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 4d47c2f..95f2723 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -517,7 +517,7 @@ private:
         // keep our promise of no CLIB usage
         while (nCount-- > 0) *ppDst++ = *ppSrc++;
 #else
-        memcpy(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
+        memmove(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
 #endif
     }
 
-- 
2.43.0

