From 152cc40cda858de0d2a2aaa75b7d7906c089b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 01/72] fix: LockFreeQueue reports full/empty from stale
 indexes and can overwrite a full queue

push() used 'continue' in a do-while loop, which evaluates the CAS and overwrote the
oldest element when the queue was full but m_count was not above half the size. It also
reported full from indexes read at different times; pop() compared wrapped indexes and
reported empty when the maximum read index was a full turn ahead of a stale read index.
---
 source/cyCore/core/cyc_lf_queue.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..8884b3f 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -59,21 +59,24 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	uint32_t currentReadIndex;
 	uint32_t currentWriteIndex;
 
-	do
+	for (;;)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
-				// the queue is full
+			// the two indexes are not read at the same time, the queue was only really full 
+			// if no other thread has moved the write index in the meantime
+			if (m_writeIndex == currentWriteIndex)
 				return false;
-			else
-				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
-				continue;
+			// this thread was blocked between the two reads, try again
+			continue;
 		}
-	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
+
+		if (atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)))
+			break;
+	}
 
 	// We know now that this index is reserved for us. Use it to save the data
 	m_queue[_countToIndex(currentWriteIndex)] = data;
@@ -109,8 +112,9 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		// compare the counters and not the indexes, other threads could have moved m_maximumReadIndex 
+		// a full turn ahead of the (stale) read index
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From 682313750601391bcd158c26fd96a86a26778db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 02/72] fix: WorkThread loses the wake-up of a message sent
 while the queue is being drained

The empty flag was set after the last pop: a message pushed in between found the flag
still false, wrote no wake-up byte and stayed in the queue until the next message.
---
 source/cyEvent/event/cye_work_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..e8b9a34 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -84,6 +84,9 @@ void WorkThread::_on_message(void)
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
 
+		//set empty flag before reading the queue, a message pushed after the last pop must wake up the looper again
+		m_is_queue_empty = true;
+
 		for (;;) {
 			Packet* packet = nullptr;
 			if (!m_message_queue.pop(packet)) break;
@@ -96,9 +99,6 @@ void WorkThread::_on_message(void)
 			Packet::free_packet(packet);
 		}
 	}
-
-	//set empty flag
-	m_is_queue_empty = true;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From c086d805c35fd7fe05cc7d4eb3fda9707bf87f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 03/72] fix: atomic_compare_exchange may fail spuriously

WorkThread uses a single attempt to decide whether to write the wake-up byte; a spurious
failure of compare_exchange_weak leaves the message in the queue without a wake-up.
---
 source/cyCore/core/cyc_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_atomic.h b/source/cyCore/core/cyc_atomic.h
index 8288578..f1ff483 100644
--- a/source/cyCore/core/cyc_atomic.h
+++ b/source/cyCore/core/cyc_atomic.h
@@ -18,7 +18,7 @@ typedef std::atomic<bool>		atomic_bool_t;
 template<typename T>
 inline bool atomic_compare_exchange(std::atomic<T>& obj, T expected, T desired) 
 {
-	return obj.compare_exchange_weak(expected, desired);
+	return obj.compare_exchange_strong(expected, desired);
 }
 
 template<typename T>
-- 
2.43.0


From 50d1708e8600cf2a57f9851ab995b9122a49fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 04/72] fix: Looper::push_stop_request races with the end of
 loop() and with the destruction of the looper

The looper thread could see the quit flag, leave loop() (destroying the inner pipe) and be
deleted while push_stop_request was still touching the inner pipe.
---
 source/cyEvent/event/cye_looper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..8736eda 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -33,6 +33,10 @@ Looper::Looper()
 //-------------------------------------------------------------------------------------
 Looper::~Looper()
 {
+	//wait until the push_stop_request call which stopped this looper (in other thread) has finished
+	sys_api::mutex_lock(m_lock);
+	sys_api::mutex_unlock(m_lock);
+
 	sys_api::mutex_destroy(m_lock);
 }
 
@@ -309,6 +313,9 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	//other threads may still be touching the inner pipe
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -353,6 +360,8 @@ void Looper::step(void)
 //-------------------------------------------------------------------------------------
 void Looper::push_stop_request(void)
 {
+	//the looper thread may quit and destroy this looper as soon as the quit flag is set
+	sys_api::auto_mutex lock(m_lock);
 	m_quit_cmd = 1;
 	_touch_inner_pipe();
 }
-- 
2.43.0


From c1782d1d2af17efdc60c9f6be3ca056779fbfce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 05/72] fix: Looper calls a stale or destroyed callback when
 events are registered or deleted in a callback

The callback was invoked inside the channel buffer: registering an event in
it may reallocate the buffer, deleting and registering again destroys the
running function object. A slot deleted in a callback was reused at once, so
the new event could receive the remaining ready events of the old one.
---
 source/cyEvent/event/cye_looper.cpp | 75 ++++++++++++++++-------------
 source/cyEvent/event/cye_looper.h   |  4 ++
 2 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 8736eda..57c2725 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -20,6 +20,8 @@ const Looper::event_id_t Looper::INVALID_EVENT_ID = (Looper::event_id_t)(~0);
 //-------------------------------------------------------------------------------------
 Looper::Looper()
 	: m_free_head(INVALID_EVENT_ID)
+	, m_pending_free_head(INVALID_EVENT_ID)
+	, m_dispatching(false)
 	, m_active_channel_counts(0)
 	, m_loop_counts(0)
 	, m_current_thread(sys_api::thread_get_current_id())
@@ -173,8 +175,9 @@ void Looper::delete_event(event_id_t id)
 	}
 	
 	//remove from active list to free list
-	channel.next = m_free_head;
-	m_free_head = id;
+	event_id_t& free_head = m_dispatching ? m_pending_free_head : m_free_head;
+	channel.next = free_head;
+	free_head = id;
 }
 
 //-------------------------------------------------------------------------------------
@@ -286,27 +289,7 @@ void Looper::loop(void)
 		if (is_quit_pending()) break;
 
 		//reactor
-		for (size_t i = 0; i < readList.size(); i++)
-		{
-			channel_s* c = &(m_channelBuffer[readList[i]]);
-			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
-
-			c->on_read(c->id, c->fd, kRead, c->param);
-
-			if (is_quit_pending()) break;
-		}
-
-		if (is_quit_pending()) break;
-
-		for (size_t i = 0; i < writeList.size(); i++)
-		{
-			channel_s* c = &(m_channelBuffer[writeList[i]]);
-			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
-
-			c->on_write(c->id, c->fd, kWrite, c->param);
-
-			if (is_quit_pending()) break;
-		}
+		_dispatch(readList, writeList);
 
 		if (is_quit_pending()) break;
 	}
@@ -336,24 +319,46 @@ void Looper::step(void)
 	if (is_quit_pending()) return;
 
 	//reactor
-	for (size_t i = 0; i < readList.size(); i++)
+	_dispatch(readList, writeList);
+}
+
+//-------------------------------------------------------------------------------------
+void Looper::_dispatch(const channel_list& readChannelList, const channel_list& writeChannelList)
+{
+	//a slot deleted by a callback can't be reused in this round, the rest of the list may still refer to it
+	m_dispatching = true;
+
+	for (size_t i = 0; i < readChannelList.size() && !is_quit_pending(); i++)
 	{
-		channel_s* c = &(m_channelBuffer[readList[i]]);
+		channel_s* c = &(m_channelBuffer[readChannelList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
-
-		if (is_quit_pending()) return;
+		//the callback may change the channel buffer, even delete its own channel
+		event_callback on_read = c->on_read;
+		on_read(c->id, c->fd, kRead, c->param);
 	}
 
-	for (size_t i = 0; i < writeList.size(); i++)
+	for (size_t i = 0; i < writeChannelList.size() && !is_quit_pending(); i++)
 	{
-		channel_s* c = &(m_channelBuffer[writeList[i]]);
+		channel_s* c = &(m_channelBuffer[writeChannelList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback on_write = c->on_write;
+		on_write(c->id, c->fd, kWrite, c->param);
+	}
+
+	m_dispatching = false;
+
+	//recycle the slots
+	sys_api::auto_mutex lock(m_lock);
+	while (m_pending_free_head != INVALID_EVENT_ID)
+	{
+		event_id_t id = m_pending_free_head;
+		channel_s& channel = m_channelBuffer[id];
+		m_pending_free_head = channel.next;
 
-		if (is_quit_pending()) return;
+		channel.next = m_free_head;
+		m_free_head = id;
 	}
 }
 
@@ -433,8 +438,10 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+	//the timer may be deleted in the callback
+	timer_callback on_timer = timer->on_timer;
+	if (on_timer) {
+		on_timer(id, timer->param);
 	}
 }
 
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..57c629d 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -107,6 +107,8 @@ protected:
 
 	channel_buffer m_channelBuffer;	//all event buf
 	event_id_t m_free_head;			//free list head in event buf
+	event_id_t m_pending_free_head;	//slots deleted while dispatching, not reusable until the end of this round
+	bool m_dispatching;				//calling the event callbacks
 	int32_t m_active_channel_counts;
 	uint64_t m_loop_counts;
 
@@ -153,6 +155,8 @@ protected:
 
 private:
 	event_id_t _get_free_slot(void);
+	//call the callback functions of all active channel
+	void _dispatch(const channel_list& readChannelList, const channel_list& writeChannelList);
 };
 
 }
-- 
2.43.0


From 5ba2fda7b2f4fb83762d4c705138875eb0a77da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 06/72] fix: TcpConnection closes the connection on a transient
 read error

A socket reported as readable may still return EAGAIN, and a read may be
interrupted; the connection was closed and its data lost.
---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..eb6e19c 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -209,9 +209,9 @@ void TcpConnection::_on_socket_read(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
 	ssize_t len = m_read_buf.read_socket(m_socket);
-	m_readbuf_minmax_size.update(m_read_buf.size());
 	if (len > 0)
 	{
+		m_readbuf_minmax_size.update(m_read_buf.size());
 		if (m_read_statistics) {
 			m_read_statistics->push(len);
 		}
@@ -225,7 +225,11 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!socket_api::is_lasterror_WOULDBLOCK()
+#ifndef CY_SYS_WINDOWS
+		&& socket_api::get_lasterror() != EINTR
+#endif
+		)
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From 14ddfe7b172ae5fc3c1fe7d4894a26407a2da2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 07/72] fix: TcpConnection counts a failed write as a packet of
 size -1 in the write statistics

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index eb6e19c..3689825 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -253,7 +253,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From d44bcf5b1302625cb808273d616dcb415529fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 08/72] fix: a write to a connection closed by peer kills the
 process with SIGPIPE

The EPIPE handling of TcpConnection was unreachable because the signal
terminates the process first.
---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 3689825..6778ffd 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -6,9 +6,26 @@ Copyright(C) thecodeway.com
 #include <cy_network.h>
 #include "cyn_tcp_connection.h"
 
+#ifndef CY_SYS_WINDOWS
+#include <signal.h>
+#endif
+
 namespace cyclone
 {
 
+#ifndef CY_SYS_WINDOWS
+//-------------------------------------------------------------------------------------
+static bool _ignore_sigpipe(void)
+{
+	//unless the application has its own handler
+	struct sigaction action;
+	if (::sigaction(SIGPIPE, nullptr, &action) == 0 && action.sa_handler == SIG_DFL) {
+		::signal(SIGPIPE, SIG_IGN);
+	}
+	return true;
+}
+#endif
+
 //-------------------------------------------------------------------------------------
 TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* owner)
 	: m_id(id)
@@ -29,6 +46,12 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_read_statistics(nullptr)
 	, m_write_statistics(nullptr)
 {
+#ifndef CY_SYS_WINDOWS
+	//a write to a connection closed by peer must fail with EPIPE, not terminate the process
+	static const bool s_ignore_sigpipe = _ignore_sigpipe();
+	(void)s_ignore_sigpipe;
+#endif
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(sfd, true);
 	socket_api::set_close_onexec(sfd, true);
-- 
2.43.0


From 2156520015c78683a8bc0520a7f9a619cfec0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 09/72] fix: TcpConnection::send races with close and with
 sends of other threads

A send from another thread could use the destroyed write lock, or append to
the buffer between the direct write of the connection's own thread and the
append of its remaining bytes, which interleaves two messages.
---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 123 +++++++++---------
 source/cyNetwork/network/cyn_tcp_connection.h |   3 -
 2 files changed, 65 insertions(+), 61 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 6778ffd..3cde716 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -97,7 +97,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -117,6 +120,9 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 	else
 	{
+		//the connection may be closed by its own thread at the same time
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -124,9 +130,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -136,13 +139,6 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 }
 
-//-------------------------------------------------------------------------------------
-bool TcpConnection::_is_writeBuf_empty(void) const
-{
-	sys_api::auto_mutex lock(m_write_buf_lock);
-	return  m_write_buf.empty();
-}
-
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
@@ -159,54 +155,58 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
 	{
-		nwrote = socket_api::write(m_socket, buf, len);
-		if (nwrote >= 0)
+		//other threads must not write between the check of write buf and the end of this message
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//nothing in write buf, send it directly
+		if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 		{
-			if (m_write_statistics) {
-				m_write_statistics->push(nwrote);
+			nwrote = socket_api::write(m_socket, buf, len);
+			if (nwrote >= 0)
+			{
+				if (m_write_statistics) {
+					m_write_statistics->push(nwrote);
+				}
+				remaining = len - (size_t)nwrote;
 			}
-			remaining = len - (size_t)nwrote;
-		}
-		else
-		{
-			nwrote = 0;
-			int err = socket_api::get_lasterror();
-
-			if(!socket_api::is_lasterror_WOULDBLOCK())
+			else
 			{
-				CY_LOG(L_ERROR, "socket send error, err=%d", err);
+				nwrote = 0;
+				int err = socket_api::get_lasterror();
+
+				if(!socket_api::is_lasterror_WOULDBLOCK())
+				{
+					CY_LOG(L_ERROR, "socket send error, err=%d", err);
 
 #ifdef CY_SYS_WINDOWS
-				if (err == WSAESHUTDOWN || err == WSAENETRESET)
+					if (err == WSAESHUTDOWN || err == WSAENETRESET)
 #else
-				if (err == EPIPE || err == ECONNRESET)
+					if (err == EPIPE || err == ECONNRESET)
 #endif
-				{
-					faultError = true;
+					{
+						faultError = true;
+					}
 				}
 			}
 		}
+
+		if (!faultError) {
+			if (remaining > 0) {
+				//write to write buffer
+				m_write_buf.memcpy_into(buf + nwrote, remaining);
+			}
+
+			//enable write event, wait socket ready
+			m_looper->enable_write(m_event_id);
+		}
 	}
 
 	//shutdown if socket work with fault
 	if (faultError) {
 		m_looper->disable_all(m_event_id);
 		shutdown();
-
-		return;
-	}
-
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
 	}
-
-	//enable write event, wait socket ready
-	m_looper->enable_write(m_event_id);
 }
 
 //-------------------------------------------------------------------------------------
@@ -215,12 +215,16 @@ void TcpConnection::shutdown(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_state == kConnected || m_state==kDisconnecting);
 
-	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//set the state to disconnecting...
+		m_state = kDisconnecting;
+
+		//something still working? wait 
+		if (m_looper->is_write(m_event_id) && !m_write_buf.empty()) return;
+	}
 
-	//something still working? wait 
-	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
-	
 	//ok, we can close the socket now
 	socket_api::shutdown(m_socket);
 	_on_socket_close();
@@ -309,29 +313,32 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	{
+		//other threads may be sending now
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//disable all event
+		m_state = kDisconnected;
+
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+
+		//reset write buf
+		m_write_buf.reset();
+	}
 
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
-	
 	//logic callback
 	if (m_on_close) {
 		m_on_close(thisPtr);
 	}
 
-	//reset read/write buf
-	m_write_buf.reset();
+	//reset read buf
 	m_read_buf.reset();
 
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..691c4f3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -115,9 +115,6 @@ private:
 	/// send message (not thread safe, must int work thread)
 	void _send(const char* buf, size_t len);
 
-	//// is write buf empty(thread safe)
-	bool _is_writeBuf_empty(void) const;
-
 public:
 	// record the max size of read buf and write buf
 	size_t get_readebuf_max_size(void) const { return m_readbuf_minmax_size.max(); }
-- 
2.43.0


From cdfe165445f9eecc7e5d5b185db9508969de29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 10/72] fix: TcpServer::join may hang or leak connections after
 stop

The shutdown command could reach a work thread before the last accepted
socket did, and a close command sent before stop could be the last one but
was not allowed to end the thread.
---
 source/cyNetwork/network/cyn_tcp_server.cpp                | 7 +++++--
 source/cyNetwork/network/cyn_tcp_server.h                  | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp      | 3 +++
 .../network/internal/cyn_tcp_server_work_thread.cpp        | 5 ++++-
 .../network/internal/cyn_tcp_server_work_thread.h          | 2 +-
 5 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..d594b12 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -119,8 +119,12 @@ void TcpServer::stop(void)
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
+}
 
-	//shutdown all connection
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_accept_stopped(void)
+{
+	//shutdown all connection, must be sent by master thread, after the last accepted socket
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
 	}
@@ -167,7 +171,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..1bb30eb 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_accept_stopped(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..e8397d1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//no more new connection, shutdown all work threads
+		m_server->_on_accept_stopped();
+
 		//stop looper
 		looper->push_stop_request();
 	}
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..86cef06 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,8 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
+
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..c2b3678 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -54,6 +53,7 @@ private:
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
+	bool			m_shutdown_ing;	//shutdown command received
 
 private:
 	//// called by work thread
-- 
2.43.0


From d104c6a1c5c03fff29a2f1a1c70aadfd936ebb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 11/72] fix: a work thread sending to the master thread during
 TcpServer::join hits an assertion

The master thread was joined, and no longer accepted messages, while the
work threads were still closing their connections.
---
 source/cyNetwork/network/cyn_tcp_server.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index d594b12..b94aafd 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -148,14 +148,17 @@ void TcpServer::_on_accept_socket(socket_t fd)
 //-------------------------------------------------------------------------------------
 void TcpServer::join(void)
 {
+	//wait all work thread quit, they may send message to master thread until then
+	for (auto work : m_work_thread_pool) {
+		work->join();
+	}
+
 	//wait accept thread quit
 	if (m_master_thread) {
 		m_master_thread->join();
 	}
 
-	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
-		work->join();
 		delete work;
 	}
 	m_work_thread_pool.clear();
-- 
2.43.0


From 8a1753c22c5cb1a742791a4674be05c20a7e94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 12/72] fix: TcpServer::stop_listen around stop accesses a
 destroyed entry, and a bound server which was never started can't be
 destroyed

---
 .../internal/cyn_tcp_server_master_thread.cpp       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index e8397d1..5c7691f 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,7 +17,15 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	//close the sockets which were bound, but never used
+	for (auto& listen_socket : m_acceptor_sockets) {
+		auto& sfd = std::get<0>(listen_socket);
+		if (sfd != INVALID_SOCKET) {
+			socket_api::close_socket(sfd);
+			sfd = INVALID_SOCKET;
+		}
+	}
+	m_acceptor_sockets.clear();
 }
 
 //-------------------------------------------------------------------------------------
@@ -156,7 +164,7 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		Looper* looper = m_master_thread.get_looper();
 
 		//close all listen socket(s)
-		for (auto listen_socket : m_acceptor_sockets) {
+		for (auto& listen_socket : m_acceptor_sockets) {
 			auto& sfd = std::get<0>(listen_socket);
 			auto& event_id = std::get<1>(listen_socket);
 
@@ -169,7 +177,6 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 				sfd = INVALID_SOCKET;
 			}
 		}
-		m_acceptor_sockets.clear();
 
 		//no more new connection, shutdown all work threads
 		m_server->_on_accept_stopped();
-- 
2.43.0


From 690bc0e54bdc9e2c077139f76ccdcef1ea4e8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 13/72] fix: address of a disconnected socket is uninitialized

---
 source/cyNetwork/network/cyn_address.cpp                        | 2 ++
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..9962467 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,8 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	//the socket may be disconnected already
+	memset(&m_address, 0, sizeof m_address);
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 5c7691f..b3dcbd6 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -118,7 +118,7 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	if (index >= m_acceptor_sockets.size()) return address;
 
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	if (!socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr)) return address;
 
 	return Address(addr);
 }
-- 
2.43.0


From 1dc2669fc2a5a6918a4b47dd06d6c3e1e2ff8c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 14/72] fix: TcpConnection::shutdown after a failed send closes
 the connection twice

send() closes the connection when the peer is gone, an application which
sends and then shuts down got a second close notification.
---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 3cde716..cc188f7 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -213,7 +213,9 @@ void TcpConnection::_send(const char* buf, size_t len)
 void TcpConnection::shutdown(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
-	assert(m_state == kConnected || m_state==kDisconnecting);
+
+	//a failed send may have closed the connection already
+	if (m_state == kDisconnected) return;
 
 	{
 		sys_api::auto_mutex lock(m_write_buf_lock);
-- 
2.43.0


From 6bfb8c19d2dda4f3dcf08b65060abae8faf5ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 15/72] fix: TcpClient::connect which fails at once leaves its
 socket registered

The event of the failed socket reported a connection which did not exist,
and the next attempt leaked the socket.
---
 source/cyNetwork/network/cyn_tcp_client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..ddc02ee 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -60,6 +60,8 @@ bool TcpClient::connect(const Address& addr)
 
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) return false;
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -79,6 +81,11 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		//nothing is in progress
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 0e2e38bad3e4aa73a24556153ab3292f93163b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 16/72] fix: TcpClient connects again after disconnect was
 called between two attempts

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index ddc02ee..42f2e1b 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -56,6 +56,9 @@ bool TcpClient::connect(const Address& addr)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_socket == INVALID_SOCKET);
 
+	//the waiting retry is replaced by this one
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+
 	sys_api::auto_mutex lock(m_connection_lock);
 
 	//create socket
@@ -181,6 +184,8 @@ void TcpClient::disconnect(void)
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
+		//cancel the waiting retry
+		RELEASE_EVENT(m_looper, m_retry_timer_id);
 		break;
 
 	case TcpConnection::kConnecting:
-- 
2.43.0


From 1e88f5b86ccbe86f603899b2551fc93f186557fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 17/72] fix: TcpClient released or disconnected while
 connecting

The listener can release the client or call disconnect when it is told that
the connection failed, both used freed or closed resources; a client released
while connecting leaked its socket.
---
 source/cyNetwork/network/cyn_tcp_client.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 42f2e1b..edb1587 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -110,6 +115,9 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 {
 	assert(m_connection == nullptr);
 
+	//the listener may release this client
+	TcpClientPtr thisPtr = shared_from_this();
+
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
 		uint32_t retry_sleep_ms = 0;
@@ -117,7 +125,11 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+
+		//the listener may have called disconnect
+		if (m_socket != INVALID_SOCKET) {
+			_abort_connect(retry_sleep_ms);
+		}
 	}
 	else {
 		//connect success!
@@ -205,6 +217,9 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	assert(id == m_retry_timer_id);
 	assert(m_connection == nullptr);
 
+	//the listener may release this client
+	TcpClientPtr thisPtr = shared_from_this();
+
 	//remove the timer
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
-- 
2.43.0


From 1093ef880f5c66d1737e52a5249c76c7aafc27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 18/72] fix: TcpClient reports on_close before on_connected if
 sending the cached messages fails

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index edb1587..9014026 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -141,6 +141,13 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
+		//send cached message, before the callback functions are bound: on_close can't be called before on_connected
+		if (!m_sendCache.empty()) {
+			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+			m_sendCache.reset();
+		}
+		bool connection_lost = (m_connection->get_state() == TcpConnection::kDisconnected);
+
 		//bind callback functions
 		if (m_listener.on_message) {
 			m_connection->set_on_message([this](TcpConnectionPtr conn) {
@@ -155,15 +162,13 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
-		//send cached message
-		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
-			m_sendCache.reset();
-		}
 		//logic callback
 		if (m_listener.on_connected) {
 			m_listener.on_connected(shared_from_this(), m_connection, true);
 		}
+		if (connection_lost && m_listener.on_close) {
+			m_listener.on_close(shared_from_this(), m_connection);
+		}
 	}
 }
 
-- 
2.43.0


From dd5617093cb79bd98a617b5da49db5a7a44fccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:00 +0000
Subject: [PATCH 19/72] fix: a connection whose send failed is never closed if
 another thread sends at the same time

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index cc188f7..191b7ac 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -202,10 +202,10 @@ void TcpConnection::_send(const char* buf, size_t len)
 		}
 	}
 
-	//shutdown if socket work with fault
+	//close if socket work with fault, nothing can be sent any more (other threads may be filling the write buf)
 	if (faultError) {
-		m_looper->disable_all(m_event_id);
-		shutdown();
+		socket_api::shutdown(m_socket);
+		_on_socket_close();
 	}
 }
 
-- 
2.43.0


From 0584ee09379973ebb0afa5709461886a9eb40f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 20/72] fix: TcpConnection::send by another thread uses the
 looper of a stopped server

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 7 ++++---
 source/cyNetwork/network/cyn_tcp_connection.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 191b7ac..5d1261b 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -32,6 +32,7 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_socket(sfd)
 	, m_state(kConnected)
 	, m_looper(looper)
+	, m_thread_id(looper->get_thread_id())
 	, m_event_id(Looper::INVALID_EVENT_ID)
 	, m_owner(owner)
 	, m_param(nullptr)
@@ -114,7 +115,7 @@ void TcpConnection::send(const char* buf, size_t len)
 {
 	if (buf == nullptr || len == 0) return;
 
-	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
+	if (sys_api::thread_get_current_id() == m_thread_id)
 	{
 		_send(buf, len);
 	}
@@ -142,8 +143,6 @@ void TcpConnection::send(const char* buf, size_t len)
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
-	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
-
 	bool faultError = false;
 	size_t remaining = len;
 	ssize_t nwrote = 0;
@@ -155,6 +154,8 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
+	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
+
 	{
 		//other threads must not write between the check of write buf and the end of this message
 		sys_api::auto_mutex lock(m_write_buf_lock);
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 691c4f3..839a5ae 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -82,6 +82,7 @@ private:
 	Address m_local_addr;
 	Address m_peer_addr;
 	Looper* m_looper;
+	thread_id_t m_thread_id;	//the thread of m_looper, which may be destroyed before this object
 	Looper::event_id_t m_event_id;
 	Owner* m_owner;
 	void* m_param;
-- 
2.43.0


From 04a51853d7739c46d8aa9d4f84931eee261c963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:06 +0000
Subject: [PATCH 21/72] fix: RingBuf::search returns a wrong position if the
 first byte matches

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..5ea1b1e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 4f7b244abacbd132210f21ebd91359a902904199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:06 +0000
Subject: [PATCH 22/72] fix: RingBuf::resize may leave a capacity one byte
 smaller than required

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 5ea1b1e..3b76b9e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2; //one byte is used for detecting the full condition
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From 0d944540d25dc61da0dc7f88beea30eaca1fd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:06 +0000
Subject: [PATCH 23/72] fix: RingBuf::peek and checksum read out of bounds if
 off+count overflows

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 3b76b9e..60a1169 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From c8d8213344f13cb558dc91535832793899a983e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 24/72] fix: a timed wait for a signal depends on changes of
 the wall clock

---
 source/cyCore/core/cyc_system_api.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..18d41a9 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -320,7 +320,16 @@ signal_t signal_create(void)
 	signal_s *sig = (signal_s*)CY_MALLOC(sizeof(*sig));
 	sig->predicate = 0;
 	pthread_mutex_init(&(sig->mutex), 0);
+#ifdef CY_SYS_MACOS
 	pthread_cond_init(&(sig->cond), 0);
+#else
+	//the time of a timed wait must not depend on changes of the wall clock
+	pthread_condattr_t attr;
+	pthread_condattr_init(&attr);
+	pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+	pthread_cond_init(&(sig->cond), &attr);
+	pthread_condattr_destroy(&attr);
+#endif
 	return (signal_t)sig;
 #endif
 }
@@ -368,9 +377,13 @@ bool _signal_unlock_wait(signal_s* sig, int32_t ms)
 	//need wait...
 	if (ms == 0) return  false;	//zero-timeout event state check optimization
 
-	timeval tv;
-	gettimeofday(&tv, 0);
-	uint64_t nanoseconds = ((uint64_t)tv.tv_sec) * kNanoSecondsPerSecond + (uint64_t)ms * (uint64_t)1000ull * (uint64_t)1000ull + ((uint64_t)tv.tv_usec) * 1000;
+	timespec now;
+#ifdef CY_SYS_MACOS
+	clock_gettime(CLOCK_REALTIME, &now);
+#else
+	clock_gettime(CLOCK_MONOTONIC, &now);
+#endif
+	uint64_t nanoseconds = ((uint64_t)now.tv_sec) * kNanoSecondsPerSecond + (uint64_t)ms * (uint64_t)1000ull * (uint64_t)1000ull + (uint64_t)now.tv_nsec;
 
 	timespec ts;
 	ts.tv_sec = (time_t)(nanoseconds / kNanoSecondsPerSecond);
-- 
2.43.0


From 98806fb0111d8069d2e916051fff7dbcfb54360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 25/72] fix: a timed lock of a mutex depends on changes of the
 wall clock

---
 source/cyCore/core/cyc_system_api.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 18d41a9..28c144a 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -19,6 +19,17 @@ Copyright(C) thecodeway.com
 #endif
 
 #include <time.h>
+//the time of a timed lock should not depend on changes of the wall clock
+#ifdef __GLIBC_PREREQ
+#if __GLIBC_PREREQ(2, 30)
+#define CY_HAVE_MUTEX_CLOCKLOCK
+#endif
+#endif
+#ifdef CY_HAVE_MUTEX_CLOCKLOCK
+#define CY_TIMED_LOCK_CLOCK CLOCK_MONOTONIC
+#else
+#define CY_TIMED_LOCK_CLOCK CLOCK_REALTIME
+#endif
 #include <chrono>
 #include <mutex>
 
@@ -262,7 +273,7 @@ bool mutex_try_lock(mutex_t m, int32_t wait_time_ms)
 	{
 	#ifdef CY_HAVE_TIMED_LOCK
 		struct timespec timestamp;
-		clock_gettime(CLOCK_REALTIME, &timestamp);
+		clock_gettime(CY_TIMED_LOCK_CLOCK, &timestamp);
 		timestamp.tv_sec += wait_time_ms / 1000;
 		timestamp.tv_nsec += (wait_time_ms % 1000) * 1000 * 1000;
 
@@ -273,7 +284,11 @@ bool mutex_try_lock(mutex_t m, int32_t wait_time_ms)
 			++timestamp.tv_sec;
 		}
 
+	#ifdef CY_HAVE_MUTEX_CLOCKLOCK
+		return 0 == pthread_mutex_clocklock(&(mutex->h), CY_TIMED_LOCK_CLOCK, &timestamp);
+	#else
 		return 0 == pthread_mutex_timedlock(&(mutex->h), &timestamp);
+	#endif
 	#else
 		int64_t time_out = performance_time_now() + wait_time_ms*1000ll;
 		while (pthread_mutex_trylock(&(mutex->h)) != 0)
-- 
2.43.0


From c0b999e971f42bdc9011d61e91c1997699efe555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 26/72] fix: signal_timewait(0) may miss a lighted signal

---
 source/cyCore/core/cyc_system_api.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 28c144a..d204898 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -422,13 +422,8 @@ bool signal_timewait(signal_t s, int32_t ms)
 	return (WAIT_OBJECT_0 == ::WaitForSingleObject(s, (DWORD)ms));
 #else
 	signal_s* sig = (signal_s*)s;
-	if (ms == 0) {
-		if (EBUSY == pthread_mutex_trylock(&(sig->mutex)))
-			return false;
-	}
-	else {
-		pthread_mutex_lock(&(sig->mutex));
-	}
+	//the mutex is never held for long, a waiting thread releases it
+	pthread_mutex_lock(&(sig->mutex));
 
 	bool ret = _signal_unlock_wait(sig, ms);
 
-- 
2.43.0


From 960ce9d8cee11eb0d27453a5d567c13ad51ea9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 27/72] fix: long host or process names are not terminated in
 the name of the log file

---
 source/cyCore/core/cyc_logger.cpp     | 4 ++--
 source/cyCore/core/cyc_system_api.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..092e254 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[32] = { 0 };
+		::gethostname(host_name, 31); //a long name is not terminated
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index d204898..035c7a6 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -62,7 +62,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
+		if (readlink("/proc/self/exe", process_path_name, 255)<0) {
 			strncpy(process_path_name, "unknown", 256);
 		}
 	#endif
@@ -72,6 +72,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 	else process_name = "unknown";
 
 	strncpy(module_name, process_name, max_size);
+	if (max_size > 0) module_name[max_size - 1] = 0;
 #endif
 
 }
-- 
2.43.0


From d026f521c0deb8fb9c0d5b3b7d0948cf043c545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 28/72] fix: the log file is truncated if it can't be opened
 once

---
 source/cyCore/core/cyc_logger.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 092e254..4dfa7f7 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -154,11 +154,8 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 		thefile.logpath_created = true;
 	}
 
+	//create the log file if necessary
 	FILE* fp = fopen(thefile.file_path_name.c_str(), "a");
-	if (fp == 0) {
-		//create the log file first
-		fp = fopen(thefile.file_path_name.c_str(), "w");
-	}
 	if (fp == 0) return;
 
 	char timebuf[32] = { 0 };
-- 
2.43.0


From aa117da9bcd36f0d7163be6a58f1f2feb66ff815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 29/72] fix: MinMaxValue of a floating point type ignores
 negative values

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From 70685c8174592ed1719476b569813b682b766991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:33 +0000
Subject: [PATCH 30/72] fix: PeriodValue::total_counts reads the queue without
 lock

---
 source/cyUtility/utility/cyu_statistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index 0543d8a..0692d69 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -92,6 +92,7 @@ public:
 
 	size_t total_counts(void) const
 	{
+		AutoLock lock(m_lock);
 		return m_valueQueue.size();
 	}
 
-- 
2.43.0


From fbf267a551a68d9c7ae2aea60a891dbbb1b949d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 31/72] fix: start callbacks of server threads can't send
 messages to the other threads

The pool of work threads was still being filled and the master thread not
yet running when the start callback of a work thread was called, so that
send_work_message accessed the vector out of bounds and send_master_message
hit an assertion.
---
 source/cyNetwork/network/cyn_tcp_server.cpp         |  6 +++++-
 .../internal/cyn_tcp_server_master_thread.cpp       |  5 +----
 .../network/internal/cyn_tcp_server_work_thread.cpp | 13 ++++++++-----
 .../network/internal/cyn_tcp_server_work_thread.h   |  2 ++
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b94aafd..ca005a9 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -69,10 +69,14 @@ bool TcpServer::start(int32_t work_thread_counts)
 	//start work thread pool
 	m_workthread_counts = work_thread_counts;
 	for (int32_t i = 0; i < m_workthread_counts; i++) {
-		//run the thread
 		m_work_thread_pool.push_back(new TcpServerWorkThread(this, i));
 	}
 
+	//run the threads, they may send message to each other from now on
+	for (auto work : m_work_thread_pool) {
+		work->start();
+	}
+
 	//start master thread
 	if (!m_master_thread->start()) {
 		return false;
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index b3dcbd6..26557d3 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -31,22 +31,19 @@ TcpServerMasterThread::~TcpServerMasterThread()
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
-	assert(m_master_thread.is_running());
-
+	//message will be queued if the master thread is not running yet
 	m_master_thread.send_message(id, size, message);
 }
 
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(const Packet* message)
 {
-	assert(m_master_thread.is_running());
 	m_master_thread.send_message(message);
 }
 
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::send_thread_message(const Packet** message, int32_t counts)
 {
-	assert(m_master_thread.is_running());
 	m_master_thread.send_message(message, counts);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 86cef06..d33b29c 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -14,14 +14,9 @@ TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	, m_index(index)
 	, m_shutdown_ing(false)
 {
-	//run work thread
 	m_work_thread = new WorkThread();
 	m_work_thread->set_on_start(std::bind(&TcpServerWorkThread::_on_workthread_start, this));
 	m_work_thread->set_on_message(std::bind(&TcpServerWorkThread::_on_workthread_message, this, std::placeholders::_1));
-
-	char temp[MAX_PATH] = { 0 };
-	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
-	m_work_thread->start(temp);
 }
 
 //-------------------------------------------------------------------------------------
@@ -30,6 +25,14 @@ TcpServerWorkThread::~TcpServerWorkThread()
 	delete m_work_thread;
 }
 
+//-------------------------------------------------------------------------------------
+void TcpServerWorkThread::start(void)
+{
+	char temp[MAX_PATH] = { 0 };
+	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
+	m_work_thread->start(temp);
+}
+
 //-------------------------------------------------------------------------------------
 void TcpServerWorkThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index c2b3678..da286e7 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -30,6 +30,8 @@ public:
 	};
 
 public: //call by TcpServer Only
+	//// run this work thread
+	void start(void);
 	//// send message to this work thread (thread safe)
 	void send_thread_message(uint16_t id, uint16_t size, const char* message);
 	void send_thread_message(const Packet* message);
-- 
2.43.0


From 5e95dd237efc9a2496b427f21d8810c5e4cd11b7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 32/72] fix: the round-robin worker index becomes negative
 after 2^31 accepted connections

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index ca005a9..e40f0c2 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -138,7 +138,7 @@ void TcpServer::_on_accept_stopped(void)
 void TcpServer::_on_accept_socket(socket_t fd)
 {
 	//send it to one of work thread		
-	int32_t index = (m_next_workthread_id++) % m_workthread_counts;
+	int32_t index = (int32_t)((uint32_t)(m_next_workthread_id++) % (uint32_t)m_workthread_counts);
 	TcpServerWorkThread* work = m_work_thread_pool[(size_t)index];
 
 	//send new connection to work thread(cmd, socket_t)		
-- 
2.43.0


From 010407292751c935fb83c0b6480c84721fb64b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:50 +0000
Subject: [PATCH 33/72] fix: a refused stop from a worker thread made every
 later stop of the server impossible

---
 source/cyNetwork/network/cyn_tcp_server.cpp         | 13 ++++++-------
 .../network/internal/cyn_tcp_server_work_thread.cpp | 10 ++++++++++
 .../network/internal/cyn_tcp_server_work_thread.h   |  2 ++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index e40f0c2..b9259e4 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -109,17 +109,16 @@ void TcpServer::stop(void)
 {
 	//not running?
 	if (m_running == 0) return;
-	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
 
 	//this function can't run in work thread
-	for (auto work : m_work_thread_pool){
-		if (work->is_in_workthread()){
-			CY_LOG(L_ERROR, "you can't stop server in work thread.");
-			return;
-		}
+	if (TcpServerWorkThread::is_work_thread_of(this)) {
+		CY_LOG(L_ERROR, "you can't stop server in work thread.");
+		return;
 	}
 
+	//is shutdown in processing?
+	if (m_shutdown_ing.exchange(1) > 0)return;
+
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index d33b29c..ba9ed8e 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -8,6 +8,9 @@ Copyright(C) thecodeway.com
 namespace cyclone
 {
 
+//the server which current work thread belongs to
+static thread_local const TcpServer* s_work_thread_server = nullptr;
+
 //-------------------------------------------------------------------------------------
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
@@ -61,6 +64,12 @@ bool TcpServerWorkThread::is_in_workthread(void) const
 	return sys_api::thread_get_current_id() == m_work_thread->get_looper()->get_thread_id();
 }
 
+//-------------------------------------------------------------------------------------
+bool TcpServerWorkThread::is_work_thread_of(const TcpServer* server)
+{
+	return s_work_thread_server == server;
+}
+
 //-------------------------------------------------------------------------------------
 TcpConnectionPtr TcpServerWorkThread::get_connection(int32_t connection_id)
 {
@@ -75,6 +84,7 @@ TcpConnectionPtr TcpServerWorkThread::get_connection(int32_t connection_id)
 bool TcpServerWorkThread::_on_workthread_start(void)
 {
 	CY_LOG(L_INFO, "Tcp work thread %d start...", m_index);
+	s_work_thread_server = m_server;
 
 	if (m_server->m_listener.on_work_thread_start) {
 		m_server->m_listener.on_work_thread_start(m_server, get_index(), m_work_thread->get_looper());
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index da286e7..d3dbcdc 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -41,6 +41,8 @@ public: //call by TcpServer Only
 	int32_t get_index(void) const { return m_index; }
 	//// is current thread in work thread (thread safe)
 	bool is_in_workthread(void) const;
+	//// is current thread one of the work threads of a server (thread safe)
+	static bool is_work_thread_of(const TcpServer* server);
 	//// join work thread(thread safe)
 	void join(void);
 	//// get connection(NOT thread safe, MUST call in work thread)
-- 
2.43.0


From c28303865333fae78b69ec38e7a53e6e71126944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:50 +0000
Subject: [PATCH 34/72] fix: check_connect writes outside of its fd_set when
 the process has many open descriptors

---
 source/cyCore/core/cyc_socket_api.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..2b6211a 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -8,6 +8,7 @@ Copyright(C) thecodeway.com
 #include <io.h>
 #else
 #include <netdb.h>
+#include <poll.h>
 #include <netinet/tcp.h>
 #endif
 #include <fcntl.h>
@@ -482,6 +483,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	}
 
 	// wait connect result
+#ifdef CY_SYS_WINDOWS
 	fd_set set_write, set_err;
 
 	FD_ZERO(&set_write);
@@ -492,13 +494,16 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 
 	// check if the socket is ready
 	timeval time_out = { timeout_ms/1000, (timeout_ms%1000) * 1000};
-	int ret = ::select(
-#ifdef CY_SYS_WINDOWS
-		0, 
+	int ret = ::select(0, nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 #else
-		s+1,
+	//a fd_set has no room for descriptors above FD_SETSIZE
+	struct pollfd wait_fd;
+	wait_fd.fd = s;
+	wait_fd.events = POLLOUT;
+	wait_fd.revents = 0;
+
+	int ret = ::poll(&wait_fd, 1, timeout_ms < 0 ? -1 : timeout_ms);
 #endif
-		nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 
 	if (ret <= 0) {
 		//time out or socket error
@@ -506,11 +511,13 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		return false;
 	}
 
+#ifdef CY_SYS_WINDOWS
 	if (!FD_ISSET(s, &set_write)) {
 		//socket not ready
 		close_socket(s);
 		return false;
 	}
+#endif
 
 	int err = get_socket_error(s);
 	if (err != 0) {
-- 
2.43.0


From cd92ab385d87340062624bd9007045136135b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:50 +0000
Subject: [PATCH 35/72] fix: check_connect reports a connectable address as
 unreachable when a signal interrupts it

---
 source/cyCore/core/cyc_socket_api.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 2b6211a..3ca9ac1 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -502,7 +502,16 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	wait_fd.events = POLLOUT;
 	wait_fd.revents = 0;
 
-	int ret = ::poll(&wait_fd, 1, timeout_ms < 0 ? -1 : timeout_ms);
+	//a signal must not end the wait
+	const int64_t begin_time = sys_api::performance_time_now();
+	int wait_ms = timeout_ms < 0 ? -1 : timeout_ms;
+	int ret;
+	while ((ret = ::poll(&wait_fd, 1, wait_ms)) < 0 && get_lasterror() == EINTR) {
+		if (timeout_ms < 0) continue;
+
+		int64_t elapsed_ms = (sys_api::performance_time_now() - begin_time) / 1000;
+		wait_ms = elapsed_ms < timeout_ms ? (int)(timeout_ms - elapsed_ms) : 0;
+	}
 #endif
 
 	if (ret <= 0) {
-- 
2.43.0


From 5314517a577e98434a27e7f58d765764ee6b46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:22 +0000
Subject: [PATCH 36/72] fix: a pipe which could not be created closes
 descriptors which are not its own

---
 source/cyEvent/event/cye_pipe.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/cyEvent/event/cye_pipe.cpp b/source/cyEvent/event/cye_pipe.cpp
index 9f9ffe0..226d83f 100644
--- a/source/cyEvent/event/cye_pipe.cpp
+++ b/source/cyEvent/event/cye_pipe.cpp
@@ -83,6 +83,8 @@ void Pipe::destroy_socket_pipe(pipe_port_t handles[2])
 //-------------------------------------------------------------------------------------
 Pipe::Pipe()
 {
+	m_pipe_fd[0] = m_pipe_fd[1] = INVALID_SOCKET;
+
 #ifdef CY_SYS_WINDOWS
 	if (!construct_socket_pipe(m_pipe_fd))
 #else
@@ -102,12 +104,7 @@ Pipe::Pipe()
 //-------------------------------------------------------------------------------------
 Pipe::~Pipe()
 {
-#ifdef CY_SYS_WINDOWS
 	destroy_socket_pipe(m_pipe_fd);
-#else
-	::close(m_pipe_fd[0]);
-	::close(m_pipe_fd[1]);
-#endif
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From db5aa37c50083b160beb15f9e235ebe4b24cadd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 37/72] fix: a timer which could not be created keeps its slot

---
 source/cyEvent/event/cye_looper.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 57c2725..763b2c8 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -110,6 +110,12 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error...
 		CY_LOG(L_FATAL, "CreateTimerQueueTimer Failed");
         delete timer;
+
+		//give the slot back
+		channel.timer = false;
+		channel.param = nullptr;
+		channel.next = m_free_head;
+		m_free_head = id;
 		return INVALID_EVENT_ID;
 	}
 #elif defined(CY_HAVE_TIMERFD)
@@ -119,6 +125,12 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
         delete timer;
+
+		//give the slot back
+		channel.timer = false;
+		channel.param = nullptr;
+		channel.next = m_free_head;
+		m_free_head = id;
         return INVALID_EVENT_ID;
 	}
 
-- 
2.43.0


From a3be34f91da54c62c94344964e866824b960872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 38/72] fix: a loop destroyed with live timers leaks them and
 their descriptors

---
 source/cyEvent/event/cye_looper.cpp           | 23 +++++++++++++------
 source/cyEvent/event/cye_looper.h             |  3 +++
 .../event/internal/cye_create_looper.cpp      |  7 ++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 763b2c8..6fbb65c 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -177,13 +177,7 @@ void Looper::delete_event(event_id_t id)
 
 	//if timer event
 	if (channel.timer) {
-		timer_s* timer = (timer_s*)channel.param;
-#ifdef CY_SYS_WINDOWS
-		::DeleteTimerQueueTimer(0, timer->htimer, INVALID_HANDLE_VALUE);
-#elif defined(CY_HAVE_TIMERFD)
-		socket_api::close_socket(channel.fd);
-#endif
-		delete timer;
+		_release_timer(channel);
 	}
 	
 	//remove from active list to free list
@@ -192,6 +186,21 @@ void Looper::delete_event(event_id_t id)
 	free_head = id;
 }
 
+//-------------------------------------------------------------------------------------
+void Looper::_release_timer(channel_s& channel)
+{
+	timer_s* timer = (timer_s*)channel.param;
+	channel.timer = false;
+	channel.param = nullptr;
+
+#ifdef CY_SYS_WINDOWS
+	::DeleteTimerQueueTimer(0, timer->htimer, INVALID_HANDLE_VALUE);
+#elif defined(CY_HAVE_TIMERFD)
+	socket_api::close_socket(channel.fd);
+#endif
+	delete timer;
+}
+
 //-------------------------------------------------------------------------------------
 void Looper::disable_read(event_id_t id)
 {
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 57c629d..4fb341f 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -143,6 +143,9 @@ protected:
 #endif
 	};
 	
+	/// release the timer of a channel
+	void _release_timer(channel_s& channel);
+
 	static void _on_timer_event_callback(event_id_t id, socket_t fd, event_t event, void* param);
 
 #ifdef CY_SYS_WINDOWS
diff --git a/source/cyEvent/event/internal/cye_create_looper.cpp b/source/cyEvent/event/internal/cye_create_looper.cpp
index 0e11f13..2a3dbdf 100644
--- a/source/cyEvent/event/internal/cye_create_looper.cpp
+++ b/source/cyEvent/event/internal/cye_create_looper.cpp
@@ -26,6 +26,13 @@ Looper* Looper::create_looper(void)
 //-------------------------------------------------------------------------------------
 void Looper::destroy_looper(Looper* looper)
 {
+	if (looper == nullptr) return;
+
+	//release the timers nobody deleted
+	for (size_t i = 0; i < looper->m_channelBuffer.size(); i++) {
+		channel_s& channel = looper->m_channelBuffer[i];
+		if (channel.timer) looper->_release_timer(channel);
+	}
 	delete looper;
 }
 
-- 
2.43.0


From ea6ce1e8cfb866deef839dce09ad27004f52eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 39/72] fix: messages a worker thread never handled are leaked

---
 source/cyEvent/event/cye_work_thread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index e8b9a34..f74824b 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -23,6 +23,12 @@ WorkThread::WorkThread()
 WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
+
+	//free the messages which were never handled
+	Packet* packet = nullptr;
+	while (m_message_queue.pop(packet)) {
+		Packet::free_packet(packet);
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From a4baf814fc8b8b3db9031089c1274ea347d0abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 40/72] fix: set_nodelay reports failure when it succeeds and
 success when it fails

---
 source/cyCore/core/cyc_socket_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 3ca9ac1..21c3478 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -301,7 +301,8 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	//qualified: IPPROTO_TCP may be an enum, which would select ::setsockopt here
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, sizeof(optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From dc5cb423020b922980d643d00e92efe24ced3f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:23 +0000
Subject: [PATCH 41/72] fix: the log of a failed setsockopt reads arguments it
 was not given

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 21c3478..3724dbe 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -262,7 +262,7 @@ bool setsockopt(socket_t s, int level, int optname, const void *optval, size_t o
 {
 	if (0 != ::setsockopt(s, level, optname, (const char*)optval, (socklen_t)optlen))
 	{
-		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", get_lasterror());
+		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", level, optname, get_lasterror());
 		return false;
 	}
 	return true;
-- 
2.43.0


From 783eba15d8293b0d7270b3ad15244da9f1060d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 42/72] fix: disconnect or connect in the callback of a failed
 attempt is overruled by its retry

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 13 +++++++++----
 source/cyNetwork/network/cyn_tcp_client.h   |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 9014026..1019ad4 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -20,6 +20,7 @@ TcpClient::TcpClient(Looper* looper, void* param, int id)
 	, m_socket(INVALID_SOCKET)
 	, m_socket_event_id(Looper::INVALID_EVENT_ID)
 	, m_retry_timer_id(Looper::INVALID_EVENT_ID)
+	, m_attempt_seq(0)
 	, m_looper(looper)
 	, m_param(param)
 	, m_connection(nullptr)
@@ -97,6 +98,7 @@ bool TcpClient::connect(const Address& addr)
 		return false;
 	}
 
+	m_attempt_seq++;
 	CY_LOG(L_DEBUG, "begin connect to %s:%d", addr.get_ip(), addr.get_port());
 	return true;
 }
@@ -120,14 +122,15 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
+		const uint32_t attempt_seq = m_attempt_seq;
 		uint32_t retry_sleep_ms = 0;
 		if (m_listener.on_connected) {
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
-		//the listener may have called disconnect
-		if (m_socket != INVALID_SOCKET) {
+		//the listener may have called disconnect, and connected again
+		if (attempt_seq == m_attempt_seq) {
 			_abort_connect(retry_sleep_ms);
 		}
 	}
@@ -198,6 +201,7 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+	m_attempt_seq++;
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
@@ -232,10 +236,11 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	if (!connect(m_serverAddr)) {
 		//failed at once!, logic callback
 		if (m_listener.on_connected) {
+			const uint32_t attempt_seq = m_attempt_seq;
 			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 
-			//retry connection?
-			if (retry_sleep_ms>0) {
+			//retry connection? the listener may have called disconnect or connect
+			if (retry_sleep_ms>0 && attempt_seq == m_attempt_seq) {
 				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
 			}
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..805f529 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -48,6 +48,7 @@ private:
 	socket_t m_socket;
 	Looper::event_id_t m_socket_event_id;
 	Looper::event_id_t m_retry_timer_id;
+	uint32_t m_attempt_seq;	//changed by disconnect and by a new attempt
 
 	Address	 m_serverAddr;
 	Looper*	m_looper;
-- 
2.43.0


From 6f97ecca4208d1ff4958ee64dac95a10febfed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:46 +0000
Subject: [PATCH 43/72] fix: read_socket without readv takes would-block for
 the end and loses data before an end or error

---
 source/cyCore/core/cyc_ring_buf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 60a1169..7f14c0d 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -204,8 +204,8 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	while (nwritten != (ssize_t)count)	{
 		ssize_t n = (ssize_t)std::min((ssize_t)(m_end - m_write), (ssize_t)(count - nwritten));
 		ssize_t len = socket_api::read(fd, m_buf + m_write, (ssize_t)n);
-		if (len == 0) return 0; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		//EOF or error? report the data read before first, next call will meet it again
+		if (len <= 0) return nwritten > 0 ? nwritten : len;
 
 		m_write += len;
 		nwritten += len;
@@ -220,8 +220,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	//need read more data
 	if (extra_buf) {
 		ssize_t len = socket_api::read(fd, stack_buf, STACK_BUF_SIZE);
-		if (len == 0) return nwritten; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return nwritten > 0 ? nwritten : len;
 		memcpy_into(stack_buf, len);
 		return nwritten + len;
 	}
-- 
2.43.0


From bf4ac72cb4a78e570edeb270ea85ef40c7ddb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:28 +0000
Subject: [PATCH 44/72] fix: output waiting to be sent was lost when the peer
 ended its own direction

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 5d1261b..f480f48 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -233,6 +233,15 @@ void TcpConnection::shutdown(void)
 	_on_socket_close();
 }
 
+//-------------------------------------------------------------------------------------
+static bool _is_lasterror_transient(void)
+{
+#ifndef CY_SYS_WINDOWS
+	if (socket_api::get_lasterror() == EINTR) return true;
+#endif
+	return socket_api::is_lasterror_WOULDBLOCK();
+}
+
 //-------------------------------------------------------------------------------------
 void TcpConnection::_on_socket_read(void)
 {
@@ -252,14 +261,11 @@ void TcpConnection::_on_socket_read(void)
 	}
 	else if (len == 0)
 	{
-		//the connection was closed by peer, close now!
-		_on_socket_close();
+		//the connection was closed by peer, close now! (it may still read what was sent before)
+		m_looper->disable_read(m_event_id);
+		shutdown();
 	}
-	else if (!socket_api::is_lasterror_WOULDBLOCK()
-#ifndef CY_SYS_WINDOWS
-		&& socket_api::get_lasterror() != EINTR
-#endif
-		)
+	else if (!_is_lasterror_transient())
 	{
 		//error!
 		_on_socket_error();
@@ -274,12 +280,16 @@ void TcpConnection::_on_socket_write(void)
 	
 	if (!(m_looper->is_write(m_event_id))) return;
 
+	bool faultError = false;
 	{
 		sys_api::auto_mutex lock(m_write_buf_lock);
 		m_writebuf_minmax_size.update(m_write_buf.size());
 		if (!m_write_buf.empty()) {
 			ssize_t len = m_write_buf.write_socket(m_socket);
 			if (len <= 0) {
+				//no read event will report it if the end of the stream was read already
+				faultError = len < 0 && !_is_lasterror_transient() && !m_looper->is_read(m_event_id);
+
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
@@ -289,7 +299,7 @@ void TcpConnection::_on_socket_write(void)
 		}
 
 		//still remain some data, wait next socket write time
-		if (!m_write_buf.empty()) {
+		if (!m_write_buf.empty() && !faultError) {
 			return;
 		}
 
@@ -297,6 +307,11 @@ void TcpConnection::_on_socket_write(void)
 		m_looper->disable_write(m_event_id);
 	}
 
+	if (faultError) {
+		_on_socket_error();
+		return;
+	}
+
 	//write complete
 	if (m_on_send_complete) {
 		m_on_send_complete(this->shared_from_this());
-- 
2.43.0


From 9ab547029cfd4f2c619ea9abdfc7d98505010ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 45/72] fix: the chat sample sent while it held its lock, a
 broadcast to a broken connection stopped it for ever

---
 samples/chat/chat_server.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/samples/chat/chat_server.cpp b/samples/chat/chat_server.cpp
index 071bf61..d6fbb5c 100644
--- a/samples/chat/chat_server.cpp
+++ b/samples/chat/chat_server.cpp
@@ -65,12 +65,15 @@ private:
 			Packet packet;
 			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
+			//send without lock, a failed send calls the close function
+			std::map< int32_t, Client > clients;
 			{
 				sys_api::auto_mutex lock(m_clients_lock);
+				clients = m_clients;
+			}
 
-				for (auto client : m_clients) {
-					client.second.connection->send(packet.get_memory_buf(), packet.get_memory_size());
-				}
+			for (auto& client : clients) {
+				client.second.connection->send(packet.get_memory_buf(), packet.get_memory_size());
 			}
 		}
 	}
-- 
2.43.0


From 518351f77ee2944aa263d78764064b6b577ec609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 46/72] fix: the echo sample stopped its server from several
 threads, one of which could run after the server was gone

---
 samples/echo/echo_server.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index d0952fa..1ea86a1 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -9,6 +9,9 @@ using namespace cyclone;
 
 #define MAX_ECHO_LENGTH (255)
 
+static std::atomic_bool g_stopping(false);
+static thread_t g_stop_thread = nullptr;
+
 enum { OPT_PORT, OPT_HELP };
 
 CSimpleOptA::SOption g_rgOptions[] = {
@@ -47,9 +50,12 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 	}
 
 	if (strcmp(temp, "shutdown") == 0) {
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, 0, nullptr);
+		//only the first one stops the server, which lives until this thread has ended
+		if (!g_stopping.exchange(true)) {
+			g_stop_thread = sys_api::thread_create([server](void*) {
+				server->stop();
+			}, nullptr, nullptr);
+		}
 		return;
 	}
 
@@ -115,6 +121,7 @@ int main(int argc, char* argv[])
 		return 1;
 
 	server.join();
+	sys_api::thread_join(g_stop_thread);
 
 	return 0;
 }
\ No newline at end of file
-- 
2.43.0


From dff4f0d7a41e17509a37fdd37371eace0e45165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:20 +0000
Subject: [PATCH 47/72] fix: the socks5 sample dropped clients whose handshake
 came in pieces, never answered when the connect failed at once and destroyed
 tunnels in use

---
 samples/socks5/s5_main.cpp | 59 ++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..d9f4b29 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -34,7 +34,7 @@ enum S5State {
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
-class S5Tunnel
+class S5Tunnel : public std::enable_shared_from_this<S5Tunnel>
 {
 public:
 	void set_state(S5State state) { m_state = state; }
@@ -42,22 +42,35 @@ public:
 
 	void connect(const Address& address){
 		m_address = address;
-        m_remoteConnection = std::make_shared<TcpClient>(m_looper, this);
-		m_remoteConnection->m_listener.on_connected = std::bind(&S5Tunnel::onServerConnected, this, _2, _3);
-		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, this, _2);
-		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, this);
+        TcpClientPtr remote = std::make_shared<TcpClient>(m_looper, this);
+		m_remoteConnection = remote;
 
-		m_remoteConnection->connect(address);
+		//the tunnel lives until the remote connection is closed
+		std::shared_ptr<S5Tunnel> self = shared_from_this();
+		remote->m_listener.on_connected = std::bind(&S5Tunnel::onServerConnected, self, _2, _3);
+		remote->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, self, _2);
+		remote->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, self);
+
+		if (!remote->connect(address)) {
+			onServerConnected(nullptr, false);
+		}
 	}
 
 	void forword_up(RingBuf& inputBuf) {
-		m_remoteConnection->send((const char*)inputBuf.normalize(), inputBuf.size());
+		//the remote connection may be closed by a failed send
+		TcpClientPtr remote = m_remoteConnection;
+		if (remote) remote->send((const char*)inputBuf.normalize(), inputBuf.size());
 		inputBuf.reset();
 	}
 
 	void disconnect(void) {
-		if (m_remoteConnection)
-			m_remoteConnection->disconnect();
+		TcpClientPtr remote = m_remoteConnection;
+		if (!remote) return;
+
+		remote->disconnect();
+		//otherwise it is sending the last data
+		if (remote->get_connection_state() == TcpConnection::kDisconnected)
+			m_remoteConnection = nullptr;
 	}
 private:
 	uint32_t onServerConnected(TcpConnectionPtr conn, bool success) 
@@ -67,16 +80,16 @@ private:
 
 		//send act to client
 		s5_build_connect_act(outputBuf, success ? 0 : 0X04, m_address);
+		//set next state
+		m_state = success ? S5_CONNECTED : S5_DISCONNECTED;
 		m_localConnection->send((const char*)outputBuf.normalize(), outputBuf.size());
 
-		//set next state
 		if (success) {
-			m_state = S5_CONNECTED;
 			CY_LOG(L_INFO, "tunnel[%d]: connect to \"%s:%d\" OK",
 				m_localConnection->get_id(), m_address.get_ip(), m_address.get_port());
 		}
 		else {
-			m_state = S5_DISCONNECTED;
+			m_remoteConnection = nullptr;
 			m_localServer->shutdown_connection(m_localConnection);
 			CY_LOG(L_WARN, "tunnel[%d]: connect to \"%s:%d\" FAILED",
 				m_localConnection->get_id(), m_address.get_ip(), m_address.get_port());
@@ -94,6 +107,7 @@ private:
 	void onServerClose(void) 
 	{
 		m_state = S5_DISCONNECTED;
+		m_remoteConnection = nullptr;
 		m_localServer->shutdown_connection(m_localConnection);
 	}
 
@@ -115,13 +129,11 @@ public:
 	{
 	}
 	~S5Tunnel() {
-		if (m_remoteConnection) {
-            assert(m_remoteConnection.use_count()==1);
-			m_remoteConnection = nullptr;
-		}
 	}
 };
 
+typedef std::shared_ptr<S5Tunnel> S5TunnelPtr;
+
 ////////////////////////////////////////////////////////////////////////////////////////////
 class S5ThreadContext
 {
@@ -131,24 +143,25 @@ public:
 		m_localServer = localServer;
 	}
 	void add_new_tunnel(TcpConnectionPtr conn) {
-		m_tunnelMap.insert({ conn->get_id(), S5Tunnel(m_localServer, m_looper, conn)});
+		m_tunnelMap.insert({ conn->get_id(), std::make_shared<S5Tunnel>(m_localServer, m_looper, conn)});
 	}
-	S5Tunnel* get_tunnel(int32_t conn_id) {
+	S5TunnelPtr get_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return nullptr;
 
-		return &(it->second);
+		return it->second;
 	}
 	void close_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return;
 
-		it->second.disconnect();
+		S5TunnelPtr tunnel = it->second;
 		m_tunnelMap.erase(it);
+		tunnel->disconnect();
 	}
 
 private:
-	typedef std::map<int32_t, S5Tunnel> TcpTunnelMap;
+	typedef std::map<int32_t, S5TunnelPtr> TcpTunnelMap;
 
 	TcpTunnelMap m_tunnelMap;
 	Looper* m_looper;
@@ -208,7 +221,7 @@ private:
 		RingBuf& inputBuf = conn->get_input_buf();
 
 		//find tunnel
-		S5Tunnel* tunnel = threadContext.get_tunnel(conn->get_id());
+		S5TunnelPtr tunnel = threadContext.get_tunnel(conn->get_id());
 		assert(tunnel != nullptr);
 		if (tunnel == nullptr) {
 			server->shutdown_connection(conn);
@@ -221,6 +234,7 @@ private:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +256,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
-- 
2.43.0


From 1ebe538878b943c43f5f094df87c7813f13e19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:56 +0000
Subject: [PATCH 48/72] fix: the relay pipe sample was torn down by refused
 connections, stopped its server twice and hung or crashed when one end left
 early

---
 samples/relay/relay_pipe.cpp | 112 ++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 40 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 1e52941..88ed593 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -28,13 +28,19 @@ public:
     {
         assert(port1->get_state()==TcpConnection::kConnected);
         assert(port2->get_state()==TcpConnection::kConnected);
-        
-        //check cache
-        forward1To2();
-        forward2To1();
     }
     
 public:
+    //-------------------------------------------------------------------------------------
+    //create pipe and forward the cache, the pipe may be released if one port is broken
+    static void create(std::shared_ptr<RelayPipe>& pipe, TcpConnectionPtr port1, TcpConnectionPtr port2)
+    {
+        std::shared_ptr<RelayPipe> self = std::make_shared<RelayPipe>(port1, port2);
+        pipe = self;
+        self->forward1To2();
+        self->forward2To1();
+    }
+
     //-------------------------------------------------------------------------------------
     void forward1To2(void)
     {
@@ -71,7 +77,7 @@ public:
 		TcpServer server;
 		server.m_listener.on_connected = std::bind(&RelayPipe_DoubleIn::onConnected, this, _1, _3);
 		server.m_listener.on_message = std::bind(&RelayPipe_DoubleIn::onMessage, this, _3);
-		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1);
+		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1, _3);
 
 		server.bind(Address(m_port1=listen_port1, false), true);
 		server.bind(Address(m_port2=listen_port2, false), true);
@@ -79,6 +85,7 @@ public:
 		if (!server.start(1)) return;
 
 		server.join();
+		if (m_stopThread) sys_api::thread_join(m_stopThread);
 	}
 
 private:
@@ -110,31 +117,36 @@ private:
         }
 
 		if (m_conn1 && m_conn2) {
-            m_pipe = std::make_shared<RelayPipe>(m_conn1, m_conn2);
+            RelayPipe::create(m_pipe, m_conn1, m_conn2);
 		}
 	}
 
 	//-------------------------------------------------------------------------------------
 	void onMessage(TcpConnectionPtr conn)
 	{
-		if (!m_pipe) return;
+		RelayPipePtr pipe = m_pipe;
+		if (!pipe) return;
 
 		if (conn == m_conn1) {
-            m_pipe->forward1To2();
+            pipe->forward1To2();
 		}
-		else {
-            m_pipe->forward2To1();
+		else if (conn == m_conn2) {
+            pipe->forward2To1();
         }
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onClose(TcpServer* server)
+	void onClose(TcpServer* server, TcpConnectionPtr conn)
 	{
+        //not one of this pipe
+        if (conn != m_conn1 && conn != m_conn2) return;
+
         m_conn1 = nullptr;
         m_conn2 = nullptr;
         m_pipe = nullptr;
         
-		sys_api::thread_create_detached([server](void*) {
+		if (m_stopThread) return;
+		m_stopThread = sys_api::thread_create([server](void*) {
 			server->stop();
 		}, nullptr, nullptr);
 	}
@@ -145,6 +157,12 @@ private:
 	TcpConnectionPtr m_conn1;
 	TcpConnectionPtr m_conn2;
 	RelayPipePtr m_pipe;
+	thread_t m_stopThread;
+
+public:
+	RelayPipe_DoubleIn() : m_port1(0), m_port2(0), m_stopThread(nullptr)
+	{
+	}
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
@@ -167,11 +185,13 @@ private:
 		m_looper = Looper::create_looper();
 
         TcpClientPtr client1 = std::make_shared<TcpClient>(m_looper, nullptr);
+		m_client1 = client1;
 		client1->m_listener.on_connected = std::bind(&RelayPipe_DoubleOut::onConnected, this, _1, _2, _3, 1);
 		client1->m_listener.on_message = std::bind(&RelayPipe_DoubleOut::onMessage, this, _1, _2);
 		client1->m_listener.on_close = std::bind(&RelayPipe_DoubleOut::onClose, this, _1);
 
 		TcpClientPtr client2 = std::make_shared<TcpClient>(m_looper, nullptr);
+		m_client2 = client2;
 		client2->m_listener.on_connected = std::bind(&RelayPipe_DoubleOut::onConnected, this, _1, _2, _3, 2);
 		client2->m_listener.on_message = std::bind(&RelayPipe_DoubleOut::onMessage, this, _1, _2);
 		client2->m_listener.on_close = std::bind(&RelayPipe_DoubleOut::onClose, this, _1);
@@ -184,6 +204,8 @@ private:
 
 		m_looper->loop();
 
+		m_client1 = nullptr;
+		m_client2 = nullptr;
         assert(client1.use_count()==1);
         assert(client2.use_count()==1);
         
@@ -204,11 +226,11 @@ private:
 		CY_LOG(L_INFO, "Port%d connect success(%s:%d -> %s:%d)!", index,
                conn->get_local_addr().get_ip(), conn->get_local_addr().get_port(),
                conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
-        if (index == 1) { m_client1 = client; m_connection1=conn; }
-        else { m_client2 = client; m_connection2 = conn; }
+        if (index == 1) m_connection1 = conn;
+        else m_connection2 = conn;
         
-        if(m_client1 && m_client2) {
-            m_pipe = std::make_shared<RelayPipe>(m_connection1, m_connection2);
+        if(m_connection1 && m_connection2) {
+            RelayPipe::create(m_pipe, m_connection1, m_connection2);
         }
 		return 0;
 	}
@@ -216,32 +238,30 @@ private:
 	//-------------------------------------------------------------------------------------
 	void onMessage(TcpClientPtr client, TcpConnectionPtr conn)
 	{
-        if(!m_pipe) return;
+        RelayPipePtr pipe = m_pipe;
+        if(!pipe) return;
         
 		if (client == m_client1) {
-            m_pipe->forward1To2();
+            pipe->forward1To2();
         }
 		else {
-            m_pipe->forward2To1();
+            pipe->forward2To1();
         }
 	}
 
 	//-------------------------------------------------------------------------------------
 	void onClose(TcpClientPtr client)
 	{
-        if(!m_pipe) return;
-        
         m_pipe = nullptr;
         m_connection1 = nullptr;
         m_connection2 = nullptr;
-        if(client==m_client1 && m_client2) m_client2->disconnect();
-        if(client==m_client2 && m_client1) m_client1->disconnect();
-        m_client1 = nullptr;
-        m_client2 = nullptr;
-        
-        sys_api::thread_create_detached([this](void*) {
+
+        //the other one may have to send the last data
+        TcpClientPtr other = (client==m_client1) ? m_client2 : m_client1;
+        other->disconnect();
+
+        if(client->get_connection_state()==TcpConnection::kDisconnected && other->get_connection_state()==TcpConnection::kDisconnected)
             m_looper->push_stop_request();
-        }, nullptr, nullptr);
 	}
 private:
 	Address m_address1;
@@ -278,13 +298,14 @@ public:
         server.m_listener.on_work_thread_start = std::bind(&RelayPipe_InOut::onWorkthreadStart, this, _1, _3);
         server.m_listener.on_connected = std::bind(&RelayPipe_InOut::onConnectedIn, this, _1, _3);
         server.m_listener.on_message = std::bind(&RelayPipe_InOut::onMessageIn, this, _3);
-        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this);
+        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this, _3);
         
         server.bind(Address(m_bindPort=bindPort, false), true);
         
         if (!server.start(1)) return;
         
         server.join();
+        if (m_stopThread) sys_api::thread_join(m_stopThread);
     }
     
 private:
@@ -316,24 +337,32 @@ private:
                conn->get_local_addr().get_ip(), conn->get_local_addr().get_port());
         m_connIn = conn;
         if(m_connOut) {
-            m_pipe = std::make_shared<RelayPipe>(m_connIn, m_connOut);
+            RelayPipe::create(m_pipe, m_connIn, m_connOut);
         }
     }
     
     //-------------------------------------------------------------------------------------
     void onMessageIn(TcpConnectionPtr conn)
     {
-        if(m_pipe)
-            m_pipe->forward1To2();
+        RelayPipePtr pipe = m_pipe;
+        if(pipe && conn == m_connIn)
+            pipe->forward1To2();
     }
     //-------------------------------------------------------------------------------------
-    void onCloseIn(void)
+    void onCloseIn(TcpConnectionPtr conn)
     {
+        //not the one of this pipe
+        if(conn != m_connIn) return;
+
         m_pipe = nullptr;
         m_connIn = nullptr;
+
+        //wait the next one if it's not connected
+        if(!m_connOut) return;
         m_connOut = nullptr;
-        if(m_client) m_client->disconnect();
-        m_client = nullptr;
+
+        TcpClientPtr client = m_client;
+        if(client) client->disconnect();
     }
     
 private:
@@ -347,7 +376,7 @@ private:
                conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
         m_connOut = conn;
         if(m_connIn) {
-            m_pipe = std::make_shared<RelayPipe>(m_connIn, m_connOut);
+            RelayPipe::create(m_pipe, m_connIn, m_connOut);
         }
         return 0;
     }
@@ -355,8 +384,9 @@ private:
     //-------------------------------------------------------------------------------------
     void onMessageOut(TcpClientPtr client, TcpConnectionPtr conn)
     {
-        if(m_pipe) 
-			m_pipe->forward2To1();
+        RelayPipePtr pipe = m_pipe;
+        if(pipe) 
+			pipe->forward2To1();
     }
     //-------------------------------------------------------------------------------------
     void onCloseOut(void)
@@ -366,7 +396,8 @@ private:
         m_connOut = nullptr;
         m_client = nullptr;
         
-        sys_api::thread_create_detached([this](void*){
+        if (m_stopThread) return;
+        m_stopThread = sys_api::thread_create([this](void*){
             m_server->stop();
         }, nullptr, nullptr);
     }
@@ -380,9 +411,10 @@ private:
     TcpConnectionPtr m_connIn;
     TcpConnectionPtr m_connOut;
     RelayPipePtr m_pipe;
+    thread_t m_stopThread;
     
 public:
-    RelayPipe_InOut() : m_server(nullptr), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr)
+    RelayPipe_InOut() : m_server(nullptr), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr), m_stopThread(nullptr)
     {
         
     }
-- 
2.43.0


From 88d7955f103c9994b80ad0a3b8993f5d63473ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:51 +0000
Subject: [PATCH 49/72] fix: the relay server sample used a connection that
 does not exist when its target could not be reached (crash), and kept the
 session

---
 samples/relay/relay_server.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..0116804 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -265,7 +265,7 @@ private:
 				//connect to up server
 				CY_LOG(L_TRACE, "Connect to up server %s:%d", m_upAddress.get_ip(), m_upAddress.get_port());
 				session->m_upClient = std::make_shared<TcpClient>(pipe->m_looper, pipe, newSessionMsg.id);
-				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, _2, _3);
+				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, newSessionMsg.id, _1, _2, _3);
 				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, _1, _2);
 				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, _1, _2);
 
@@ -393,13 +393,12 @@ private:
 	}
 private:
 	//-------------------------------------------------------------------------------------
-	uint32_t onServerConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
+	uint32_t onServerConnected(int32_t id, TcpClientPtr client, TcpConnectionPtr conn, bool success)
 	{
 		RelayPipe* pipe = (RelayPipe*)(client->get_param());
 		if (pipe->m_downState != kHandshaked) return 0;
 
 		if (success) {
-			int32_t id = conn->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			assert(it != pipe->m_relaySessionMap.end());
 			if (it == pipe->m_relaySessionMap.end()) {
@@ -410,8 +409,6 @@ private:
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
-			//send close session msg to down
-			int32_t id = conn->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			if (it == pipe->m_relaySessionMap.end()) {
 				return 0;
@@ -419,18 +416,9 @@ private:
 			RelaySessionPtr session = it->second;
 			assert(session->m_upState == RelaySession::kConnecting);
 
-			RelayCloseSessionMsg msg;
-			msg.id = session->m_id;
-
-			Packet packet;
-			packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
-
-			//send to down client
-			pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-			session->m_upState = RelaySession::kDisconnected;
-
-			//send to work thread to delete session and client
-			m_downServer->send_work_message(pipe->m_workthread_index, &packet);
+			//give up the connecting socket, send close session msg to down and delete session
+			client->disconnect();
+			_kickDownSession(pipe, id, session);
 			CY_LOG(L_TRACE, "[%d]Connect to UP failed!", id);
 		}
 		return 0;
-- 
2.43.0


From 13a487e9337979bbfe0aa884bdbb00051a8db72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:51 +0000
Subject: [PATCH 50/72] fix: the relay server sample destroyed sessions which
 were still sending

---
 samples/relay/relay_server.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 0116804..76b8bf5 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -288,11 +288,7 @@ private:
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
 				if (it == pipe->m_relaySessionMap.end()) break;
 
-				RelaySessionPtr session = it->second;
-				session->m_upState = RelaySession::kDisconnecting;
-				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
-				pipe->m_relaySessionMap.erase(it);
+				_closeSession(pipe, it->second);
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -357,13 +353,9 @@ private:
 		pipe->m_downState = kDisconnected;
 
 		//close all tunnel
-		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
-			RelaySessionPtr session = it->second;
-
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
+		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end();) {
+			_closeSession(pipe, (it++)->second);
 		}
-		pipe->m_relaySessionMap.clear();
 
 		pipe->m_downConnection.reset();
 
@@ -485,6 +477,11 @@ private:
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		else {
+			//all data of a closed session was sent
+			session->m_upState = RelaySession::kDisconnected;
+			pipe->m_relaySessionMap.erase(id);
+		}
 
 		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
 	}
@@ -495,6 +492,18 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	void _closeSession(RelayPipe* pipe, RelaySessionPtr session) {
+		session->m_upState = RelaySession::kDisconnecting;
+		session->m_upClient->disconnect();
+
+		//still sending? delete it when the connection is closed
+		if (session->m_upClient->get_connection_state() != TcpConnection::kDisconnected) return;
+
+		session->m_upState = RelaySession::kDisconnected;
+		pipe->m_relaySessionMap.erase(session->m_id);
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
 		if (pipe->m_downState != kHandshaked) return;
-- 
2.43.0


From 56610e61f1644eadce301978493e85b170b1871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:51 +0000
Subject: [PATCH 51/72] fix: the relay local sample kept its clients when the
 link to the server half was lost

---
 samples/relay/relay_local.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..8146aef 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -418,6 +418,12 @@ private:
 		
 		pipe->m_upClient = nullptr;
 		pipe->m_upState = kDisConnected;
+
+		//nothing can be relayed any more
+		for (auto& it : pipe->m_sessionMap) {
+			m_downServer->shutdown_connection(it.second.m_downConnection);
+		}
+		pipe->m_sessionMap.clear();
 	}
 
 private:
-- 
2.43.0


From 2b12ef767f5ba3964a7252df77ac68a7b5d171c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:52 +0000
Subject: [PATCH 52/72] fix: an invalid packet made both halves of the relay
 sample loop forever or read outside the packet

---
 samples/relay/relay_local.cpp  | 21 +++++++++++++++++++++
 samples/relay/relay_server.cpp | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index 8146aef..87e996e 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -349,10 +349,16 @@ private:
 					//get packet
 					Packet packet;
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
+					if (packet.get_packet_size() < sizeof(RelayForwardMsg)) return _onInvalidPacket(client, pipe, packetID);
 
 					RelayForwardMsg forwardMsg;
 					memcpy(&forwardMsg, packet.get_packet_content(), sizeof(RelayForwardMsg));
 
+					size_t dataSize = packet.get_packet_size() - sizeof(RelayForwardMsg);
+					if (forwardMsg.size < 0 || (size_t)forwardMsg.size > dataSize || (m_encryptMode && dataSize != _round16(dataSize))) {
+						return _onInvalidPacket(client, pipe, packetID);
+					}
+
 					//decrypt
 					if (m_encryptMode)
 					{
@@ -390,6 +396,7 @@ private:
 					//get packet
 					Packet packet;
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
+					if (packet.get_packet_size() != sizeof(RelayCloseSessionMsg)) return _onInvalidPacket(client, pipe, packetID);
 
 					RelayCloseSessionMsg closeSessionMsg;
 					memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
@@ -406,11 +413,25 @@ private:
 				}
 				break;
 
+				default:
+					return _onInvalidPacket(client, pipe, packetID);
 				}
 			}
+			else {
+				//wait for the end of this connection
+				return;
+			}
 		}
 	}
 
+	//-------------------------------------------------------------------------------------
+	void _onInvalidPacket(TcpClientPtr client, RelayPipe* pipe, uint16_t packetID)
+	{
+		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+		client->disconnect();
+		pipe->m_upState = kDisConnected;
+	}
+
 	//-------------------------------------------------------------------------------------
 	void onUpClose(TcpClientPtr client, TcpConnectionPtr conn)
 	{
diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 76b8bf5..87d028e 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -254,9 +254,11 @@ private:
 				//get packet 
 				Packet packet;
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
+				if (packet.get_packet_size() != sizeof(RelayNewSessionMsg)) return _onInvalidPacket(server, pipe, conn, packetID);
 
 				RelayNewSessionMsg newSessionMsg;
 				memcpy(&newSessionMsg, packet.get_packet_content(), sizeof(newSessionMsg));
+				if (pipe->m_relaySessionMap.count(newSessionMsg.id) > 0) return _onInvalidPacket(server, pipe, conn, packetID);
 
 				//create new relay session
 				RelaySessionPtr session = std::make_shared<RelaySession>(newSessionMsg.id);
@@ -281,6 +283,7 @@ private:
 				//get packet 
 				Packet packet;
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
+				if (packet.get_packet_size() != sizeof(RelayCloseSessionMsg)) return _onInvalidPacket(server, pipe, conn, packetID);
 
 				RelayCloseSessionMsg closeSessionMsg;
 				memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
@@ -299,10 +302,16 @@ private:
 				//get packet 
 				Packet packet;
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
+				if (packet.get_packet_size() < sizeof(RelayForwardMsg)) return _onInvalidPacket(server, pipe, conn, packetID);
 
 				RelayForwardMsg forwardMsg;
 				memcpy(&forwardMsg, packet.get_packet_content(), sizeof(forwardMsg));
 
+				size_t dataSize = packet.get_packet_size() - sizeof(RelayForwardMsg);
+				if (forwardMsg.size < 0 || (size_t)forwardMsg.size > dataSize || (m_encryptMode && dataSize != _round16(dataSize))) {
+					return _onInvalidPacket(server, pipe, conn, packetID);
+				}
+
 				int32_t id = forwardMsg.id;
 				auto it = pipe->m_relaySessionMap.find(id);
 				if (it == pipe->m_relaySessionMap.end()) {
@@ -338,11 +347,13 @@ private:
 			break;
 
 			default:
-				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
-				server->shutdown_connection(conn);
-				break;
+				return _onInvalidPacket(server, pipe, conn, packetID);
 			}
 		}
+		else {
+			//wait for the end of this connection
+			return;
+		}
 		}
 	}
 	//-------------------------------------------------------------------------------------
@@ -492,6 +503,13 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	void _onInvalidPacket(TcpServer* server, RelayPipe* pipe, TcpConnectionPtr conn, uint16_t packetID) {
+		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+		server->shutdown_connection(conn);
+		pipe->m_downState = kWaitConnecting;
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _closeSession(RelayPipe* pipe, RelaySessionPtr session) {
 		session->m_upState = RelaySession::kDisconnecting;
-- 
2.43.0


From 904fd11a3a20b5bd2e4e7eac28e9b5711be08268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:06 +0000
Subject: [PATCH 53/72] fix: the file transfer server sample kept its state per
 thread: a second connection broke the first, a lost one blocked the thread

---
 samples/filetransfer/ft_server.cpp | 77 ++++++++++++++++--------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4915319..7c8cd1d 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -7,6 +7,7 @@
 #include <utility/cyu_string_util.h>
 
 #include <fstream>
+#include <set>
 
 #include "ft_common.h"
 
@@ -40,30 +41,37 @@ static void printUsage(const char* moduleName)
 class FileTransferServer
 {
 private:
-	enum ThreadStatus
+	enum TransferStatus
 	{
-		TS_Idle,
 		TS_Connected,
 		TS_Sending,
 		TS_Completed,
 	};
-	struct ThreadContext
+	//one for each connection
+	struct Transfer
 	{
-		ThreadStatus status;
+		TransferStatus status;
 		std::ifstream fileHandle;
 		size_t offsetBegin;
 		size_t offsetNow;
 		size_t offsetEnd;
 		uint32_t fragmentCRC;
+		TcpConnectionPtr conn;
+
+		Transfer() {
+			status = TS_Connected;
+			offsetBegin = offsetNow = offsetEnd = 0;
+			fragmentCRC = INITIAL_ADLER;
+		}
+	};
+	struct ThreadContext
+	{
 		enum { BUFFER_SIZE = 64*1024 };
 		char* buffer;
-		TcpConnectionPtr conn;
+		std::set<Transfer*> transfers;
 		std::atomic<float> sendSpeed;
 
 		ThreadContext() {
-			status = TS_Idle;
-			offsetBegin = offsetNow = offsetEnd = 0;
-			fragmentCRC = INITIAL_ADLER;
 			buffer = nullptr;
 			sendSpeed = 0.f;
 		}
@@ -107,10 +115,7 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
-		ctx.status = TS_Idle;
 		ctx.buffer = (char*)CY_MALLOC(ThreadContext::BUFFER_SIZE);
-		ctx.offsetBegin = ctx.offsetEnd = ctx.offsetNow = 0;
-		ctx.fragmentCRC = INITIAL_ADLER;
 		ctx.sendSpeed = 0.f;
 
 		looper->register_timer_event(1000, nullptr, std::bind(&FileTransferServer::_onWorkThreadTimer, this, index));
@@ -121,10 +126,14 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[index]);
 
-		if (ctx.status == TS_Sending && ctx.conn) {
-			const auto& writeStatistics = ctx.conn->get_write_statistics();
-			ctx.sendSpeed = (float)writeStatistics.first / (float)SEND_STATISTICS_TIME;
+		float sendSpeed = 0.f;
+		for (Transfer* transfer : ctx.transfers) {
+			if (transfer->status != TS_Sending) continue;
+
+			const auto& writeStatistics = transfer->conn->get_write_statistics();
+			sendSpeed += (float)writeStatistics.first / (float)SEND_STATISTICS_TIME;
 		}
+		ctx.sendSpeed = sendSpeed;
 	}
 
 	void _onClientConnected(int32_t index, TcpConnectionPtr conn)
@@ -132,16 +141,13 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (ctx.status != TS_Idle) {
-			conn->shutdown();
-			return;
-		}
-		
-		ctx.status = TS_Connected;
-		ctx.conn = conn;
+		Transfer* transfer = new Transfer;
+		transfer->conn = conn;
+		conn->set_param(transfer);
+		ctx.transfers.insert(transfer);
 
 		//enable statistics
-		ctx.conn->start_write_statistics(SEND_STATISTICS_TIME*1000);
+		conn->start_write_statistics(SEND_STATISTICS_TIME*1000);
 
 		this->m_workingCounts += 1;
 	}
@@ -169,18 +175,22 @@ private:
 
 	void _onSendReady(int32_t index, TcpConnectionPtr conn)
 	{
-		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
+		char* buffer = m_threadContext[(size_t)index]->buffer;
+		Transfer& ctx = *(Transfer*)(conn->get_param());
 		assert(ctx.status == TS_Sending);
 
 		ctx.fileHandle.seekg((std::streamsize)ctx.offsetNow);
-		size_t readSize = (size_t)ctx.fileHandle.read(ctx.buffer, ThreadContext::BUFFER_SIZE).gcount();
+		size_t readSize = (size_t)ctx.fileHandle.read(buffer, ThreadContext::BUFFER_SIZE).gcount();
 		if (ctx.offsetNow + readSize > ctx.offsetEnd) {
 			readSize = ctx.offsetEnd - ctx.offsetNow;
 		}
 		ctx.offsetNow += readSize;
-		ctx.fragmentCRC = cyclone::adler32(ctx.fragmentCRC, (const uint8_t*)ctx.buffer, readSize);
+		ctx.fragmentCRC = cyclone::adler32(ctx.fragmentCRC, (const uint8_t*)buffer, readSize);
 
-		conn->send(ctx.buffer, readSize);
+		conn->send(buffer, readSize);
+
+		//the connection was lost, and the transfer is over
+		if (conn->get_state() == TcpConnection::kDisconnected) return;
 
 		//end?
 		if (ctx.offsetNow >= ctx.offsetEnd) {
@@ -206,7 +216,7 @@ private:
 	{
 		RingBuf& ringBuf = conn->get_input_buf();
 		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
-		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
+		Transfer& ctx = *(Transfer*)(conn->get_param());
 
 		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
 			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
@@ -226,7 +236,6 @@ private:
 		ctx.offsetNow = ctx.offsetBegin = require->fileOffset;
 		ctx.offsetEnd = ctx.offsetBegin + (size_t)(require->fragmentSize);
 		ctx.fragmentCRC = INITIAL_ADLER;
-		ctx.sendSpeed = 0.f;
 
 		//send fragment begin 
 		FT_ReplyFileFragment_Begin fileBegin;
@@ -243,7 +252,7 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		if (m_threadContext[(size_t)index]->status != TS_Connected) {
+		if (((Transfer*)(conn->get_param()))->status != TS_Connected) {
 			conn->shutdown();
 			return;
 		}
@@ -272,12 +281,10 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (ctx.status == TS_Sending) {
-			ctx.fileHandle.close();
-		}
-		ctx.status = TS_Idle;
-		ctx.conn.reset();
-		ctx.sendSpeed = 0.f;
+		Transfer* transfer = (Transfer*)(conn->get_param());
+		ctx.transfers.erase(transfer);
+		delete transfer;
+		conn->set_param(nullptr);
 
 		this->m_workingCounts -= 1;
 	}
-- 
2.43.0


From 35bf71debe1ca9c17e62d85327fc7b8cd3efd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:06 +0000
Subject: [PATCH 54/72] fix: the file transfer client sample divided by zero
 for files below 64 KB

---
 samples/filetransfer/ft_client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..43c845f 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -254,7 +254,8 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				size_t useTime = (size_t)(ctx->endTime - ctx->beginTime);
+				size_t speed = (size_t)ctx->fragmentSize * 1000 * 1000 / (useTime > 0 ? useTime : 1);
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
@@ -335,6 +336,7 @@ public:
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
@@ -379,7 +381,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				(float)(m_fileSize > 0 ? totalDownloadSize*100 / m_fileSize : 100));
 
 			sys_api::thread_sleep(1000);
 		}
-- 
2.43.0


From 7fd80c8c4ce9ce8bd74d9b93d9900dee1c4b6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:06 +0000
Subject: [PATCH 55/72] fix: the file transfer client sample reported success
 for files it could not write

---
 samples/filetransfer/ft_client.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 43c845f..8b47c4b 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -69,6 +69,7 @@ public:
 		thread_t downloadThread;
 		std::string strFileName;
 		std::ofstream fileHandle;
+		bool fileError;
 		int64_t beginTime;
 		int64_t endTime;
 	};
@@ -168,6 +169,8 @@ public:
 		ctx->fileHandle.open(ctx->strFileName, std::ios::out | std::ios::binary);
 		if (ctx->fileHandle.fail()) {
 			CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+			ctx->status = TS_Error;
+			client->disconnect();
 			return 0;
 		}
 
@@ -228,6 +231,7 @@ public:
 			ctx->status = TS_Complete;
 
 			ctx->fileHandle.close();
+			ctx->fileError = ctx->fileHandle.fail();
 		}
 	}
 
@@ -249,7 +253,11 @@ public:
 			ctx->status = TS_Error;
 		}
 		else {
-			if (fileEnd.fragmentCRC != ctx->fragmentCRC) {
+			if (ctx->fileError) {
+				CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+				ctx->status = TS_Error;
+			}
+			else if (fileEnd.fragmentCRC != ctx->fragmentCRC) {
 				CY_LOG(L_ERROR, "Error! fragment %d crc failed, receive data 0X%08x, should be 0x%08x", ctx->index, ctx->fragmentCRC, fileEnd.fragmentCRC);
 				ctx->status = TS_Error;
 			}
@@ -357,6 +365,7 @@ public:
 			ctx->fragmentSize = (i==fragmentCounts-1) ? (int32_t)(m_fileSize - ctx->fileOffset) : fragmentSize;
 			ctx->receivedSize = 0;
 			ctx->fragmentCRC = INITIAL_ADLER;
+			ctx->fileError = false;
 			ctx->downloadThread = sys_api::thread_create(std::bind(&FileTransferClient::_downloadThread, this, _1), ctx, threadName);
 
 			m_downloadContext.push_back(ctx);
@@ -432,6 +441,11 @@ public:
 		}
 		outputFileHandle.close();
 		CY_FREE(pBuffer);
+
+		if (outputFileHandle.fail()) {
+			CY_LOG(L_ERROR, "Write file %s failed!", m_strFileName.c_str());
+			return false;
+		}
 		return true;
 	}
 };
-- 
2.43.0


From 69f28bf8d5d2d11014b95612a34a2cdda6cacfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 56/72] fix: the file transfer client sample waited forever for
 a connect that failed at once

---
 samples/filetransfer/ft_client.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 8b47c4b..8a0799c 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -141,9 +141,9 @@ public:
 		};
 
 		CY_LOG(L_DEBUG, "connect to %s:%d...", m_server_ip.c_str(), m_server_port);
-		client->connect(Address(m_server_ip.c_str(), m_server_port));
-
-		looper->loop();
+		if (client->connect(Address(m_server_ip.c_str(), m_server_port))) {
+			looper->loop();
+		}
 
 		client = nullptr;
 		Looper::destroy_looper(looper);
@@ -323,8 +323,9 @@ public:
 		CY_LOG(L_INFO, "Begin download thread[%d], offset=%zd, fragment_size=%d", ctx->index, ctx->fileOffset, ctx->fragmentSize);
 
 		//begin connect to server and download in work thread
-		ctx->client->connect(Address(m_server_ip.c_str(), m_server_port));
-		ctx->looper->loop();
+		if (ctx->client->connect(Address(m_server_ip.c_str(), m_server_port))) {
+			ctx->looper->loop();
+		}
 
 		ctx->client = nullptr;
 		Looper::destroy_looper(ctx->looper);
-- 
2.43.0


From c37c8b6fdd9cd0821ca3d6f04acc962d58609dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:20 +0000
Subject: [PATCH 57/72] fix: the file transfer server sample sent bytes outside
 its buffer for requests with a negative size or offset

---
 samples/filetransfer/ft_server.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 7c8cd1d..d645c3c 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -218,7 +218,7 @@ private:
 		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
 		Transfer& ctx = *(Transfer*)(conn->get_param());
 
-		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
+		if (require->fragmentSize < 0 || require->fileOffset > m_fileSize || (size_t)(require->fragmentSize) > m_fileSize - require->fileOffset) {
 			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
 			conn->shutdown();
 			return;
@@ -263,6 +263,11 @@ private:
 
 		FT_Head head;
 		ringBuf.peek(0, &head, sizeof(head));
+		if (head.size < (int32_t)(head.id == FT_RequireFileFragment::ID ? sizeof(FT_RequireFileFragment) : sizeof(FT_Head))) {
+			CY_LOG(L_INFO, "Receive invalid message, id=%d, size=%d", head.id, head.size);
+			conn->shutdown();
+			return;
+		}
 		if ((int32_t)ringBuf.size() < head.size) return;
 
 		switch (head.id) {
-- 
2.43.0


From 213516a510ca993414ccde969dc1ad6a590928d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:50 +0000
Subject: [PATCH 58/72] fix: the file transfer server sample left a transfer
 open for ever when its file could not be read

---
 samples/filetransfer/ft_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index d645c3c..798568a 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -184,6 +184,11 @@ private:
 		if (ctx.offsetNow + readSize > ctx.offsetEnd) {
 			readSize = ctx.offsetEnd - ctx.offsetNow;
 		}
+		if (readSize == 0 && ctx.offsetNow < ctx.offsetEnd) {
+			CY_LOG(L_ERROR, "Read file %s failed", m_strPathName.c_str());
+			conn->shutdown();
+			return;
+		}
 		ctx.offsetNow += readSize;
 		ctx.fragmentCRC = cyclone::adler32(ctx.fragmentCRC, (const uint8_t*)buffer, readSize);
 
-- 
2.43.0


From 96f57cee3aa81be18664b408fea58e53d05b1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:50 +0000
Subject: [PATCH 59/72] fix: the file transfer client sample read a part
 without end when the disk failed

---
 samples/filetransfer/ft_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 8a0799c..fcbdc1f 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -434,6 +434,11 @@ public:
 
 			while (!inputFileHandle.eof()) {
 				size_t readSize = (size_t)inputFileHandle.read(pBuffer, (std::streamsize)kBufSize).gcount();
+				if (inputFileHandle.bad()) {
+					CY_LOG(L_ERROR, "Read file %s failed!", ctx->strFileName.c_str());
+					CY_FREE(pBuffer);
+					return false;
+				}
 				outputFileHandle.write(pBuffer, (std::streamsize)readSize);
 			}
 			inputFileHandle.close();
-- 
2.43.0


From 1338fc19d56b735a19b19a21903c4abfd9ea4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 60/72] fix: the file transfer server sample left the second of
 two messages unread when both came at once

---
 samples/filetransfer/ft_server.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 798568a..6b98470 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -257,33 +257,40 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
+		//a client may send the next message before it got the reply of the last one
+		while (_processMessage(index, conn)) {}
+	}
+
+	bool _processMessage(int32_t index, TcpConnectionPtr conn)
+	{
 		if (((Transfer*)(conn->get_param()))->status != TS_Connected) {
 			conn->shutdown();
-			return;
+			return false;
 		}
 
 		//read head
 		RingBuf& ringBuf = conn->get_input_buf();
-		if (ringBuf.size() < sizeof(FT_Head)) return;
+		if (ringBuf.size() < sizeof(FT_Head)) return false;
 
 		FT_Head head;
 		ringBuf.peek(0, &head, sizeof(head));
 		if (head.size < (int32_t)(head.id == FT_RequireFileFragment::ID ? sizeof(FT_RequireFileFragment) : sizeof(FT_Head))) {
 			CY_LOG(L_INFO, "Receive invalid message, id=%d, size=%d", head.id, head.size);
 			conn->shutdown();
-			return;
+			return false;
 		}
-		if ((int32_t)ringBuf.size() < head.size) return;
+		if ((int32_t)ringBuf.size() < head.size) return false;
 
 		switch (head.id) {
 		case FT_RequireFileInfo::ID:
 			_onMessage_QueryFileInfo(index, head, conn);
-			break;
+			return conn->get_state() == TcpConnection::kConnected;
 
 		case FT_RequireFileFragment::ID:
 			_onMessage_RequireFileFragment(index, head, conn);
 			break;
 		}
+		return false;
 	}
 
 	void _onClientClose(int32_t index, TcpConnectionPtr conn)
-- 
2.43.0


From f4af8b1f59ce891b98211d6eb6168a0480aa509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:25 +0000
Subject: [PATCH 61/72] fix: the file transfer client sample asked for parts of
 a negative size when a file is larger than 2 GB

---
 samples/filetransfer/ft_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index fcbdc1f..1f8f610 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -350,7 +350,7 @@ public:
 		else {
 			fragmentCounts = m_threadTounts;
 		}
-		fragmentSize = (int32_t)((int32_t)m_fileSize / fragmentCounts) & (~0xF);
+		fragmentSize = (int32_t)(m_fileSize / (size_t)fragmentCounts) & (~0xF);
 
 		m_beginDownloadTime = sys_api::performance_time_now();
 
-- 
2.43.0


From ebc3f28907d6f5ded1e4fed254f6b7e9bb5c4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 62/72] fix: chat client: partial packets were displayed as
 empty lines, the second of two messages was not displayed, long messages
 overran a buffer

---
 samples/chat/chat_client.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index ce2969d..44ec036 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -81,13 +81,19 @@ public:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		Packet packet;
-		packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf);
+		//there may be a part of a packet only, or several packets
+		for (;;)
+		{
+			Packet packet;
+			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
-		char temp[1024] = { 0 };
-		memcpy(temp, packet.get_packet_content(), packet.get_packet_size());
+			std::string temp;
+			if (packet.get_packet_size() > 0) {
+				temp.assign(packet.get_packet_content(), packet.get_packet_size());
+			}
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp.c_str());
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From bd9b12eccd000b83b77918de23c84a0647c0616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 63/72] fix: echo client left more than 255 bytes undisplayed

---
 samples/echo/echo_client.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 6e5141a..27b04b3 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -80,10 +80,13 @@ private:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		char temp[MAX_ECHO_LENGTH +1] = { 0 };
-		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+		while (!buf.empty())
+		{
+			char temp[MAX_ECHO_LENGTH +1] = { 0 };
+			buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp);
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From 1cb87da38fc65b017bb686c90301cb34e14be09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 64/72] fix: the chat and echo clients hung when a connect
 failed at once

---
 samples/chat/chat_client.cpp | 6 +++++-
 samples/echo/echo_client.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index 44ec036..b9c6a8d 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -48,7 +48,11 @@ public:
 		m_client->m_listener.on_message = std::bind(&ChatClient::onMessage, this, _2);
 		m_client->m_listener.on_close = std::bind(&ChatClient::onClose, this);
 
-		m_client->connect(Address(m_server_ip.c_str(), m_server_port));
+		//a connect may fail at once
+		while (!m_client->connect(Address(m_server_ip.c_str(), m_server_port))) {
+			CY_LOG(L_INFO, "connect failed!, retry after %d milliseconds...", 1000 * 5);
+			sys_api::thread_sleep(1000 * 5);
+		}
 		looper->loop();
 
 		m_client = nullptr;
diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 27b04b3..e0d7e4c 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -48,7 +48,11 @@ private:
 		m_client->m_listener.on_message = std::bind(&EchoClient::onMessage, this, _2);
 		m_client->m_listener.on_close = std::bind(&EchoClient::onClose, this);
 
-		m_client->connect(Address(m_server_ip.c_str(), m_server_port));
+		//a connect may fail at once
+		while (!m_client->connect(Address(m_server_ip.c_str(), m_server_port))) {
+			CY_LOG(L_INFO, "connect failed!, retry after %d milliseconds...", 1000 * 5);
+			sys_api::thread_sleep(1000 * 5);
+		}
 		looper->loop();
 
 		m_client = nullptr;
-- 
2.43.0


From e35e56ea106da8311fc2625cb95c86914254c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 65/72] fix: messages refused by the full queue of a work
 thread were leaked

---
 source/cyEvent/event/cye_work_thread.cpp | 16 +++++++++++++---
 source/cyEvent/event/cye_work_thread.h   |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index f74824b..4575499 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -113,7 +113,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	m_message_queue.push(packet);
+	_push_message(packet);
 
 	_wakeup();
 }
@@ -122,7 +122,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 void WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	m_message_queue.push(packet);
+	_push_message(packet);
 	
 	_wakeup();
 }
@@ -132,12 +132,22 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 {
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		m_message_queue.push(packet);
+		_push_message(packet);
 	}
 
 	_wakeup();
 }
 
+//-------------------------------------------------------------------------------------
+void WorkThread::_push_message(Packet* packet)
+{
+	if (m_message_queue.push(packet)) return;
+
+	//the queue is full
+	CY_LOG(L_ERROR, "message queue of work thread \"%s\" is full, message %d dropped", get_name(), packet->get_packet_id());
+	Packet::free_packet(packet);
+}
+
 //-------------------------------------------------------------------------------------
 void WorkThread::join(void)
 {
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index ede4e38..c392d1b 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -67,6 +67,9 @@ private:
 	//// on work thread receive message
 	void _on_message(void);
 
+	/// put message to the queue, release it if the queue is full
+	void _push_message(Packet* packet);
+
 	/// wakeup the looper
 	void _wakeup(void);
 public:
-- 
2.43.0


From b628a13d7b385f77aa3acae0375c5b868d42737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 66/72] fix: relay server dropped the data of a client which
 left before its target was connected

---
 samples/relay/relay_server.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 87d028e..c35c4e1 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -291,7 +291,13 @@ private:
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
 				if (it == pipe->m_relaySessionMap.end()) break;
 
-				_closeSession(pipe, it->second);
+				if (it->second->m_upState == RelaySession::kConnecting) {
+					//what the down client has sent waits for the connection, close the session after that
+					it->second->m_upState = RelaySession::kDisconnecting;
+				}
+				else {
+					_closeSession(pipe, it->second);
+				}
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -408,6 +414,11 @@ private:
 				return 0;
 			}
 			RelaySessionPtr session = it->second;
+			if (session->m_upState == RelaySession::kDisconnecting) {
+				//the down client is gone already, all of its data was sent
+				client->disconnect();
+				return 0;
+			}
 			session->m_upState = RelaySession::kConnected;
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
@@ -417,7 +428,13 @@ private:
 				return 0;
 			}
 			RelaySessionPtr session = it->second;
-			assert(session->m_upState == RelaySession::kConnecting);
+			assert(session->m_upState == RelaySession::kConnecting || session->m_upState == RelaySession::kDisconnecting);
+
+			if (session->m_upState == RelaySession::kDisconnecting) {
+				//nobody waits for this session any more
+				_closeSession(pipe, session);
+				return 0;
+			}
 
 			//give up the connecting socket, send close session msg to down and delete session
 			client->disconnect();
-- 
2.43.0


From 06a398c4999b02819d35c7123befdbf7db370c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:44 +0000
Subject: [PATCH 67/72] fix: relay local half kept its clients while a broken
 peer did not read

---
 samples/relay/relay_local.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index 87e996e..af1e51a 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -430,6 +430,18 @@ private:
 		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
 		client->disconnect();
 		pipe->m_upState = kDisConnected;
+
+		//the connection may stay for a while if the peer doesn't read
+		_shutdownAllSessions(pipe);
+	}
+
+	//-------------------------------------------------------------------------------------
+	void _shutdownAllSessions(RelayPipe* pipe)
+	{
+		for (auto& it : pipe->m_sessionMap) {
+			m_downServer->shutdown_connection(it.second.m_downConnection);
+		}
+		pipe->m_sessionMap.clear();
 	}
 
 	//-------------------------------------------------------------------------------------
@@ -441,10 +453,7 @@ private:
 		pipe->m_upState = kDisConnected;
 
 		//nothing can be relayed any more
-		for (auto& it : pipe->m_sessionMap) {
-			m_downServer->shutdown_connection(it.second.m_downConnection);
-		}
-		pipe->m_sessionMap.clear();
+		_shutdownAllSessions(pipe);
 	}
 
 private:
-- 
2.43.0


From 3d9781d5593d0dd83dbe13739955204c0315c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:00 +0000
Subject: [PATCH 68/72] fix: echo server left more than 255 bytes unanswered
 until the next message

---
 samples/echo/echo_server.cpp | 40 ++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index 1ea86a1..1ae86b5 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -39,30 +39,34 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 {
 	RingBuf& buf = conn->get_input_buf();
 
-	char temp[MAX_ECHO_LENGTH + 1] = { 0 };
-	buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+	//more than one line may have come
+	while (!buf.empty())
+	{
+		char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-	CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
+		CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
 
-	if (strcmp(temp, "exit") == 0) {
-		server->shutdown_connection(conn);
-		return;
-	}
+		if (strcmp(temp, "exit") == 0) {
+			server->shutdown_connection(conn);
+			return;
+		}
 
-	if (strcmp(temp, "shutdown") == 0) {
-		//only the first one stops the server, which lives until this thread has ended
-		if (!g_stopping.exchange(true)) {
-			g_stop_thread = sys_api::thread_create([server](void*) {
-				server->stop();
-			}, nullptr, nullptr);
+		if (strcmp(temp, "shutdown") == 0) {
+			//only the first one stops the server, which lives until this thread has ended
+			if (!g_stopping.exchange(true)) {
+				g_stop_thread = sys_api::thread_create([server](void*) {
+					server->stop();
+				}, nullptr, nullptr);
+			}
+			return;
 		}
-		return;
-	}
 
-	size_t len = strlen(temp);
-	for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
+		size_t len = strlen(temp);
+		for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
 
-	conn->send(temp, strlen(temp));
+		conn->send(temp, strlen(temp));
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From dfff26537b05f013c0a1f4fcfc9167feaf271533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:37 +0000
Subject: [PATCH 69/72] fix: an empty piece reset a running adler32 checksum

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..e71f406 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,7 +69,7 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
 	
 	/* split Adler-32 into component sums */
-- 
2.43.0


From 36f308405a51a21cd1cebce81a6ccbdfdcae6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:37 +0000
Subject: [PATCH 70/72] fix: a private key of zero made the key exchange
 recurse until the stack was used up

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..e33939f 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
-- 
2.43.0


From 46357ba46b5fadb7e64c98592ba1c309b3fabc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:37 +0000
Subject: [PATCH 71/72] fix: the relay pipe hung when a connect failed at once

---
 samples/relay/relay_pipe.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 88ed593..d70005d 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -199,8 +199,8 @@ private:
         CY_LOG(L_INFO, "Connect to port1 %s:%d", m_address1.get_ip(), m_address1.get_port());
         CY_LOG(L_INFO, "Connect to port2 %s:%d", m_address2.get_ip(), m_address2.get_port());
         
-		client1->connect(m_address1);
-		client2->connect(m_address2);
+		_connect(client1, m_address1);
+		_connect(client2, m_address2);
 
 		m_looper->loop();
 
@@ -215,6 +215,16 @@ private:
 		Looper::destroy_looper(m_looper);
 	}
 
+	//-------------------------------------------------------------------------------------
+	void _connect(TcpClientPtr client, const Address& address)
+	{
+		//a connect may fail at once
+		while (!client->connect(address)) {
+			CY_LOG(L_INFO, "connect to %s:%d failed!, retry after %d milliseconds...", address.get_ip(), address.get_port(), 1000 * 5);
+			sys_api::thread_sleep(1000 * 5);
+		}
+	}
+
 	//-------------------------------------------------------------------------------------
 	uint32_t onConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success, int32_t index)
 	{
@@ -322,8 +332,22 @@ private:
         m_client->m_listener.on_message = std::bind(&RelayPipe_InOut::onMessageOut, this, _1, _2);
         m_client->m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseOut, this);
         
-        m_client->connect(m_addrToConnect);
+        _connectOut();
     }
+    
+    //-------------------------------------------------------------------------------------
+    void _connectOut(void)
+    {
+        if (m_client->connect(m_addrToConnect)) return;
+        
+        //a connect may fail at once, try again later
+        CY_LOG(L_INFO, "connect to %s:%d failed!, retry after %d milliseconds...", m_addrToConnect.get_ip(), m_addrToConnect.get_port(), 1000 * 5);
+        m_looper->register_timer_event(1000 * 5, nullptr, [this](Looper::event_id_t id, void*) {
+            m_looper->delete_event(id);
+            _connectOut();
+        });
+    }
+    
     //-------------------------------------------------------------------------------------
     void onConnectedIn(TcpServer* server, TcpConnectionPtr conn)
     {
-- 
2.43.0


From 321f6a388c6794d680012adb1de02fe698ded572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:37 +0000
Subject: [PATCH 72/72] fix: the relay local half hung when its connect failed
 at once

---
 samples/relay/relay_local.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index af1e51a..fcf6770 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -146,7 +146,19 @@ private:
 		newPipe->m_upClient->m_listener.on_connected = std::bind(&RelayLocal::onUpConnected, this, _2, _3);
 		newPipe->m_upClient->m_listener.on_message = std::bind(&RelayLocal::onUpMessage, this, _1, _2);
 		newPipe->m_upClient->m_listener.on_close = std::bind(&RelayLocal::onUpClose, this, _1, _2);
-		newPipe->m_upClient->connect(m_upAddress);
+		_connectUp(index, looper);
+	}
+	//-------------------------------------------------------------------------------------
+	void _connectUp(int32_t index, Looper* looper)
+	{
+		if (m_relayPipes[(size_t)index]->m_upClient->connect(m_upAddress)) return;
+
+		//a connect may fail at once, try again later
+		CY_LOG(L_INFO, "connect to %s:%d failed!, retry after %d milliseconds...", m_upAddress.get_ip(), m_upAddress.get_port(), 1000 * 10);
+		looper->register_timer_event(1000 * 10, nullptr, [this, index, looper](Looper::event_id_t id, void*) {
+			looper->delete_event(id);
+			_connectUp(index, looper);
+		});
 	}
 	//-------------------------------------------------------------------------------------
 	void onLocalConnected(TcpServer* server, int32_t index, TcpConnectionPtr conn)
-- 
2.43.0

