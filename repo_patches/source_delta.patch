From a9bc5aa8ba1ee01b9177a7eae11dd4d4ad7b83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:49 +0000
Subject: [PATCH 01/40] fix: report a stream whose data behind a valid message
 lacks the prefix

prefix_suffix_unpacker::parse_msg returned true although the left data can never
become a message, completion_condition then stopped reading without any error
and the link silently stopped receiving.
---
 include/ext/unpacker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index d8163cd..31edbff 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -692,7 +692,8 @@ public:
 		else if (remain_len > 0)
 			memmove(raw_buff.begin(), pnext, remain_len); //left behind unparsed msg
 
-		return true;
+		//if the left behind data doesn't begin with the prefix, then it will never become a msg, completion_condition will refuse to read any more, so report it.
+		return (size_t) -1 != cur_msg_len || remain_len < _prefix.size();
 	}
 
 	//a return value of 0 indicates that the read operation is complete. a non-zero value indicates the maximum number
-- 
2.43.0


From bfc1ccc67983c3237d5dcb2f12e3ec76e9ab97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 02/40] fix: basic_buffer(other, pos, len) must copy the
 sub-range of other

it advanced other.size() rather than other.data(), so append(count, char) was
called and the buffer got size + pos copies of one character, pos + len could
also overflow.
---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 4707bf4..b139116 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -88,7 +88,7 @@ public:
 	{
 		do_detach();
 		if (pos < other.size())
-			append(boost::next(other.size(), pos), pos + len > other.size() ? other.size() - pos : len);
+			append(boost::next(other.data(), pos), len > other.size() - pos ? other.size() - pos : len);
 	}
 
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
-- 
2.43.0


From fd44357b6f64aa90feaa1d97af0d15540dd8a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 03/40] fix: append2(const char*) must delete the last '\0'
 before appending

as its comment says and as append2(const char*, size_t) does.
---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index b139116..da9ca7f 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -160,7 +160,7 @@ public:
 		printf("%zu\n", bb.size()); //the final length of bb is 13, just include the last '\0' character, all middle '\0' characters have been deleted.
 	*/
 	//by the way, deleting the last character which is not '\0' before appending another string is very efficient, please use it freely.
-	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
+	basic_buffer& append2(const char* buff) {return append2(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
 		if (len > 0 && '\0' == *boost::next(buff, len - 1))
-- 
2.43.0


From 2844a5a2ec871e0d3107b153a619fe144d0ee5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 04/40] fix: basic_buffer can be assigned and appended from
 itself

self assignment lost the content, appending (a part of) itself read freed memory
after the reallocation, and assign() from a part of itself overlapped memcpy.
---
 include/ext/ext.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index da9ca7f..c458f6f 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -94,7 +94,7 @@ public:
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
 	inline basic_buffer& operator=(char* buff) {resize(0); return operator+=(buff);}
 	inline basic_buffer& operator=(const char* buff) {resize(0); return operator+=(buff);}
-	inline basic_buffer& operator=(const basic_buffer& other) {resize(0); return operator+=(other);}
+	inline basic_buffer& operator=(const basic_buffer& other) {if (this == &other) return *this; resize(0); return operator+=(other);}
 	template<typename Buff> inline basic_buffer& operator=(const Buff& other) {resize(0); return operator+=(other);}
 
 	inline basic_buffer& operator+=(char c) {return append(c);}
@@ -131,9 +131,15 @@ public:
 
 			size_t capacity = len + _len;
 			if (capacity > cap)
+			{
+				bool inside = NULL != buff && buff <= _buff && _buff < boost::next(buff, cap); //the source is a part of this buffer
+				size_t offset = inside ? _buff - buff : 0;
 				reserve(capacity);
+				if (inside)
+					_buff = boost::next(buff, offset);
+			}
 
-			memcpy(boost::next(buff, len), _buff, _len);
+			memmove(boost::next(buff, len), _buff, _len);
 			len += (unsigned) _len;
 		}
 
-- 
2.43.0


From ac25143968d5007b38160d444a8bb69c7fce131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 05/40] fix: messages that exceed the header's range must be
 refused by all pack_msg overloads

with ST_ASIO_MSG_BUFFER_SIZE > 65535 and without ST_ASIO_HUGE_MSG, the overloads
working with containers truncated the length in the header (just an assertion)
and corrupted the stream, while the scatter-gather overload refused the message.
---
 include/ext/packer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 969e1cc..5ecdab6 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -64,7 +64,7 @@ private:
 	typedef i_packer<T> super;
 
 public:
-	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
+	static size_t get_max_msg_size() {return std::min<size_t>(ST_ASIO_MSG_BUFFER_SIZE, (ST_ASIO_HEAD_TYPE) -1) - ST_ASIO_HEAD_LEN;}
 
 	packer() {ST_ASIO_HEAD_TYPE head_len = packer_helper::pack_header(0); heartbeat.assign((const char*) &head_len, ST_ASIO_HEAD_LEN);}
 
-- 
2.43.0


From 8230aec58b8796950780dedf06778b915c87ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 06/40] fix: obj_with_begin_time's operator= returned nothing

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..d595310 100644
--- a/include/base.h
+++ b/include/base.h
@@ -551,7 +551,7 @@ template<typename T> struct obj_with_begin_time : public T
 	obj_with_begin_time(const obj_with_begin_time& other) : T(other), begin_time(other.begin_time) {}
 	obj_with_begin_time(obj_with_begin_time& other) {swap(other);} //after this call, other becomes empty, please note.
 	obj_with_begin_time& operator=(const obj_with_begin_time& other) {T::operator=(other); begin_time = other.begin_time; return *this;}
-	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other);} //after this call, other becomes empty, please note.
+	obj_with_begin_time& operator=(obj_with_begin_time& other) {clear(); swap(other); return *this;} //after this call, other becomes empty, please note.
 
 	void restart() {restart(statistic::now());}
 	void restart(const typename statistic::stat_time& begin_time_) {begin_time = begin_time_;}
-- 
2.43.0


From 0b73412f720859f5e75bb0d117d299e594716b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 07/40] fix: wrong minimum in accumulated durations

adding an empty duration set the minimum to 0, and a sample of 0 was forgotten
as the minimum by the next bigger sample.
---
 include/base.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/base.h b/include/base.h
index d595310..4ddbe03 100644
--- a/include/base.h
+++ b/include/base.h
@@ -349,21 +349,21 @@ struct statistic
 
 			if (max_duration < other)
 				max_duration = other;
-			if (0 == min_duration.count() || min_duration > other)
+			if (1 == num || min_duration > other)
 				min_duration = other;
 
 			return *this;
 		}
 		duration& operator+=(const duration& other)
 		{
-			super::operator+=(other);
-			num += other.num;
-
 			if (max_duration < other.max_duration)
 				max_duration = other.max_duration;
-			if (0 == min_duration.count() || min_duration > other.min_duration)
+			if (other.num > 0 && (0 == num || min_duration > other.min_duration))
 				min_duration = other.min_duration;
 
+			super::operator+=(other);
+			num += other.num;
+
 			return *this;
 		}
 		duration& operator-=(const duration& other) {super::operator-=(other); num -= other.num; return *this;}
-- 
2.43.0


From 10a49421d74b417e556a4ae742d75ce03ea8dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:43 +0000
Subject: [PATCH 08/40] fix: continue dispatching a refused message after
 reconnecting

do_start did not resume dispatching: the re-dispatching timer is stopped when the
link breaks, so the dispatching flag stayed set and no message was ever dispatched again.
---
 include/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 7cb1e52..1f5ff91 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -326,6 +326,8 @@ protected:
 		start_heartbeat(ST_ASIO_HEARTBEAT_INTERVAL);
 #endif
 		send_msg(); //send buffer may have msgs, send them
+		if (dispatching) //the message refused on the previous link is still not handled, and its re-dispatching timer has been stopped together with that link
+			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));
 #if !defined(ST_ASIO_PASSIVE_RECV) || !defined(ST_ASIO_SYNC_RECV)
 		recv_msg();
 #endif
-- 
2.43.0


From 5e50959e4991ae01982333786a33a8df706b988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:01 +0000
Subject: [PATCH 09/40] fix: close() could miss a thread about to wait in
 sync_recv_msg

started_ was cleared and the condition variable notified without holding the mutex, so a
receiver between checking its predicate and blocking waited for ever.
---
 include/socket.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 1f5ff91..877e437 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -438,9 +438,14 @@ protected:
 		if (!started_)
 			return false;
 
-		started_ = false;
 #ifdef ST_ASIO_SYNC_RECV
+		//without this mutex, a thread which has just checked started_ can miss the notification and then wait forever
+		boost::unique_lock<boost::mutex> sync_recv_lock(sync_recv_mutex);
+		started_ = false;
+		sync_recv_lock.unlock();
 		sync_recv_cv.notify_all();
+#else
+		started_ = false;
 #endif
 		stop_all_timer();
 
-- 
2.43.0


From af5179915f4749f8cf49ac47fc10d6cdd9fa5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 10/40] fix: synchronous senders of messages discarded by
 shrinking waited for ever

---
 include/socket.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 877e437..2a11007 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -411,6 +411,11 @@ protected:
 		send_buffer.move_items_out_(size, msg_can);
 		send_buffer.unlock();
 
+#ifdef ST_ASIO_SYNC_SEND
+		for (BOOST_AUTO(iter, msg_can.begin()); iter != msg_can.end(); ++iter)
+			if (iter->p)
+				iter->p->set_value(NOT_APPLICABLE);
+#endif
 		on_msg_discard(msg_can);
 		return true;
 	}
-- 
2.43.0


From 558af710ac6bc48eb45c979593fe982813d2c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 11/40] fix: synchronous senders of messages still queued when
 the link was closed for good waited for ever

---
 include/socket.h | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 2a11007..45fe35c 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -468,6 +468,9 @@ protected:
 			on_close();
 			after_close();
 			obsoleted_ = true;
+#ifdef ST_ASIO_SYNC_SEND
+			abandon_sync_msgs();
+#endif
 		}
 		else
 		{
@@ -607,6 +610,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		abandon_sync_msgs(); //just in case the link was closed before the message had been inserted into the send buffer
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -632,6 +636,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		abandon_sync_msgs(); //just in case the link was closed before the message had been inserted into the send buffer
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -651,16 +656,16 @@ protected:
 		for (BOOST_AUTO(iter, msg_can.begin()); iter != msg_can.end(); ++iter)
 		{
 			size_in_byte += iter->size();
-			temp_buffer.emplace_back().swap(*iter); //with c++0x, this can be emplace_back(*iter)
+			temp_buffer.emplace_back().swap(*iter, true); //with c++0x, this can be emplace_back(*iter)
 		}
 
-		temp_buffer.back().check_and_create_promise(true);
 		BOOST_AUTO(p, temp_buffer.back().p);
 		typename in_msg::future f;
 		p->get_future().swap(f);
 		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
 
 		send_msg();
+		abandon_sync_msgs(); //just in case the link was closed before the message had been inserted into the send buffer
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -670,6 +675,32 @@ protected:
 #endif
 
 private:
+#ifdef ST_ASIO_SYNC_SEND
+	//after the link been closed (and will not be established again automatically), nobody will send the messages in the send buffer, do not let their senders wait forever.
+	void abandon_sync_msgs()
+	{
+		if (started_ || !obsoleted_)
+			return;
+
+		in_container_type msg_can, left_can;
+		send_buffer.lock();
+		send_buffer.move_items_out_(msg_can);
+		while (!msg_can.empty())
+			if (msg_can.front().p)
+			{
+				msg_can.front().p->set_value(NOT_APPLICABLE);
+				msg_can.pop_front();
+			}
+			else
+			{
+				BOOST_AUTO(iter, msg_can.begin());
+				left_can.splice(left_can.end(), msg_can, msg_can.begin(), ++iter);
+			}
+		send_buffer.move_items_in_(left_can);
+		send_buffer.unlock();
+	}
+#endif
+
 	virtual void do_recv_msg() = 0;
 	virtual bool do_send_msg(bool in_strand = false) = 0;
 
@@ -820,6 +851,9 @@ private:
 			after_close();
 			set_async_calling(false);
 			obsoleted_ = true;
+#ifdef ST_ASIO_SYNC_SEND
+			abandon_sync_msgs();
+#endif
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 150490605accb85e7b97cdca56e210a933a6ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 12/40] fix: division by zero in aligned timers with interval 0

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..e66598c 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -182,7 +182,7 @@ protected:
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = 0 == ti.interval_ms ? 0 : elapsed_ms % ti.interval_ms;
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
-- 
2.43.0


From 9f907fa62c4f1576e9c8dbb1609ad54357e9b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 13/40] fix: an expiration already queued called back early
 after the timer had been restarted

---
 include/timer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/timer.h b/include/timer.h
index e66598c..1e6546d 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -174,6 +174,9 @@ protected:
 
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
+		if (prev_seq != ti.seq) //this timer has been restarted, but this expiration had already been queued and was not able to be cancelled
+			return;
+
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
-- 
2.43.0


From 1f089da88465cdcec413ebebdb933637be553bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 14/40] fix: a client whose bind failed while retrying was left
 half started

---
 include/tcp/client_socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 643a33d..77a5eed 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -185,7 +185,10 @@ private:
 	bool connect(bool first)
 	{
 		if (!first && !bind())
+		{
+			connect_handler(boost::asio::error::address_in_use); //treat it as a failed connecting, otherwise, nobody will retry or close this socket any more
 			return false;
+		}
 
 		ST_THIS lowest_layer().async_connect(server_addr, ST_THIS make_handler_error(boost::bind(&generic_client_socket::connect_handler, this, boost::asio::placeholders::error)));
 		return true;
-- 
2.43.0


From 963700b573dd17f1d89df92ca2bf8d51f1a55c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 15/40] fix: a start concurrent with the end of close() could
 start a socket that is being closed

---
 include/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 45fe35c..562410a 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -152,7 +152,7 @@ public:
 		if (!started_ && !is_timer(TIMER_DELAY_CLOSE) && !stopped())
 		{
 			scope_atomic_lock lock(start_atomic);
-			if (!started_ && lock.locked())
+			if (!started_ && lock.locked() && !is_timer(TIMER_DELAY_CLOSE)) //close() can have been finished after above checking, so check again with the lock
 				started_ = do_start();
 			else
 				unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
-- 
2.43.0


From 8d048f9fa44a4b292deaaf896dcd7305f243fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 16/40] fix: changing the id of a removed object brought it
 back to the object pool

---
 include/object_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/object_pool.h b/include/object_pool.h
index 25b7a84..da01149 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -135,7 +135,10 @@ protected:
 			return true;
 
 		boost::lock_guard<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
-		if (!object_can.emplace(id, object_ptr).second)
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		if (iter == object_can.end() || iter->second != object_ptr) //already been removed, don't bring it back
+			return false;
+		else if (!object_can.emplace(id, object_ptr).second)
 			return false;
 
 		object_can.erase(object_ptr->id());
-- 
2.43.0


From e1e1b4c14346c97b6ccfb1844ff0049c981dce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 17/40] fix: removing an object from the object pool removed
 another one which had taken its id

---
 include/object_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/object_pool.h b/include/object_pool.h
index da01149..f9a3c63 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -76,7 +76,10 @@ protected:
 		assert(object_ptr);
 
 		boost::unique_lock<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
-		bool exist = object_can.erase(object_ptr->id()) > 0;
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		bool exist = iter != object_can.end() && iter->second == object_ptr; //the id can have been taken by another object, see init_object_id
+		if (exist)
+			object_can.erase(iter);
 		lock.unlock();
 
 		if (exist)
-- 
2.43.0


From 39a47d427c597afb976409c4f473600e2617ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 18/40] fix: after listen() had failed a server was shown as
 listening and could not listen again

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 141d288..1988d4e 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -118,7 +118,7 @@ public:
 #else
 		acceptor.listen(boost::asio::socket_base::max_connections, ec); assert(!ec);
 #endif
-		if (ec) {unified_out::error_out("listen failed."); return false;}
+		if (ec) {unified_out::error_out("listen failed."); listening = false; acceptor.close(ec); return false;}
 
 		st_asio_wrapper::do_something_to_all(sockets, boost::bind(&generic_server::do_async_accept, this, boost::placeholders::_1));
 		return true;
-- 
2.43.0


From 38e11aba3e4b3ff0407d5d40861ac0f95df65ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 19/40] fix: a connection accepted while the service was
 stopping was left open and blocked stop_service forever

---
 include/tcp/server.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 1988d4e..9de677f 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -21,9 +21,9 @@ template<typename Socket, typename Family = boost::asio::ip::tcp, typename Pool
 class generic_server : public Server, public Pool
 {
 protected:
-	generic_server(service_pump& service_pump_) : Pool(service_pump_), acceptor(service_pump_.assign_io_context()), io_context_refs(1), listening(false) {}
+	generic_server(service_pump& service_pump_) : Pool(service_pump_), acceptor(service_pump_.assign_io_context()), io_context_refs(1), listening(false), stopping(false) {}
 	template<typename Arg> generic_server(service_pump& service_pump_, const Arg& arg) :
-		Pool(service_pump_, arg), acceptor(service_pump_.assign_io_context()), io_context_refs(1), listening(false) {}
+		Pool(service_pump_, arg), acceptor(service_pump_.assign_io_context()), io_context_refs(1), listening(false), stopping(false) {}
 	~generic_server() {clear_io_context_refs(); Pool::clear_io_context_refs();}
 
 public:
@@ -199,8 +199,8 @@ public:
 	void graceful_shutdown() {ST_THIS do_something_to_all(boost::bind(&Socket::graceful_shutdown, boost::placeholders::_1));}
 
 protected:
-	virtual bool init() {return start_listen() ? (ST_THIS start(), true) : false;}
-	virtual void uninit() {ST_THIS stop(); stop_listen(); force_shutdown();} //if you wanna graceful shutdown, call graceful_shutdown before service_pump::stop_service invocation.
+	virtual bool init() {stopping = false; return start_listen() ? (ST_THIS start(), true) : false;}
+	virtual void uninit() {stopping = true; ST_THIS stop(); stop_listen(); force_shutdown();} //if you wanna graceful shutdown, call graceful_shutdown before service_pump::stop_service invocation.
 
 	virtual int async_accept_num() {return ST_ASIO_ASYNC_ACCEPT_NUM;}
 	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); do_async_accept(create_object());}
@@ -232,6 +232,8 @@ protected:
 			socket_ptr->show_info("client:", "arrive.");
 			if (get_service_pump().is_service_started()) //service already started
 				socket_ptr->start();
+			if (stopping) //uninit() may have walked through the object pool before this link was added or started
+				socket_ptr->force_shutdown();
 
 			return true;
 		}
@@ -271,6 +273,7 @@ private:
 	unsigned io_context_refs;
 	boost::mutex mutex;
 	bool listening;
+	volatile bool stopping;
 };
 
 template<typename Socket, typename Pool = object_pool<Socket>, typename Server = i_server>
-- 
2.43.0


From b614cb63ea7e18d19efc805d24b608e513561797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 20/40] fix: an accept continued after stop_listen() could stop
 a listening started again meanwhile

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 9de677f..f86bff6 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -203,7 +203,7 @@ protected:
 	virtual void uninit() {stopping = true; ST_THIS stop(); stop_listen(); force_shutdown();} //if you wanna graceful shutdown, call graceful_shutdown before service_pump::stop_service invocation.
 
 	virtual int async_accept_num() {return ST_ASIO_ASYNC_ACCEPT_NUM;}
-	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); do_async_accept(create_object());}
+	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); if (is_listening()) do_async_accept(create_object());}
 	virtual bool on_accept(typename Pool::object_ctype& socket_ptr) {return true;}
 
 	//if you want to ignore this error and continue to accept new connections immediately, return true in this virtual function;
-- 
2.43.0


From f9d6de9f69ad17479c873e835abdf9421af429b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:43 +0000
Subject: [PATCH 21/40] fix: a safe broadcast waiting for a slow link locked
 the object pool, which could block the service threads for ever

---
 include/base.h        | 12 ++++++++----
 include/object_pool.h | 13 +++++++++++++
 include/tcp/client.h  |  4 ++--
 include/tcp/server.h  |  4 ++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/base.h b/include/base.h
index 4ddbe03..82ab633 100644
--- a/include/base.h
+++ b/include/base.h
@@ -796,17 +796,21 @@ bool FUNNAME(const char* const pstr[], const size_t len[], size_t num, bool can_
 	{while (!SEND_FUNNAME(pstr, len, num, can_overflow, prior)) SAFE_SEND_MSG_CHECK(false) return true;} \
 TCP_SEND_MSG_CALL_SWITCH(FUNNAME, bool)
 
-#define TCP_BROADCAST_MSG(FUNNAME, SEND_FUNNAME) \
+#define TCP_BROADCAST_MSG_NAME(FUNNAME, SEND_FUNNAME, ALL_FUNNAME) \
 void FUNNAME(typename Pool::in_msg_ctype& msg, bool can_overflow = false, bool prior = false) \
-	{ST_THIS do_something_to_all(boost::bind((bool (Socket::*)(typename Pool::in_msg_ctype&, bool, bool)) &Socket::SEND_FUNNAME, \
+	{ST_THIS ALL_FUNNAME(boost::bind((bool (Socket::*)(typename Pool::in_msg_ctype&, bool, bool)) &Socket::SEND_FUNNAME, \
 		boost::placeholders::_1, boost::cref(msg), can_overflow, prior));} \
 void FUNNAME(typename Pool::in_msg_ctype& msg1, typename Pool::in_msg_ctype& msg2, bool can_overflow = false, bool prior = false) \
-	{ST_THIS do_something_to_all(boost::bind((bool (Socket::*)(typename Pool::in_msg_ctype&, typename Pool::in_msg_ctype&, bool, bool)) &Socket::SEND_FUNNAME, \
+	{ST_THIS ALL_FUNNAME(boost::bind((bool (Socket::*)(typename Pool::in_msg_ctype&, typename Pool::in_msg_ctype&, bool, bool)) &Socket::SEND_FUNNAME, \
 		boost::placeholders::_1, boost::cref(msg1), boost::cref(msg2), can_overflow, prior));} \
 void FUNNAME(const char* const pstr[], const size_t len[], size_t num, bool can_overflow = false, bool prior = false) \
-	{ST_THIS do_something_to_all(boost::bind((bool (Socket::*)(const char* const[], const size_t[], size_t, bool, bool)) &Socket::SEND_FUNNAME, \
+	{ST_THIS ALL_FUNNAME(boost::bind((bool (Socket::*)(const char* const[], const size_t[], size_t, bool, bool)) &Socket::SEND_FUNNAME, \
 		boost::placeholders::_1, pstr, len, num, can_overflow, prior));} \
 TCP_SEND_MSG_CALL_SWITCH(FUNNAME, void)
+
+#define TCP_BROADCAST_MSG(FUNNAME, SEND_FUNNAME) TCP_BROADCAST_MSG_NAME(FUNNAME, SEND_FUNNAME, do_something_to_all)
+//SEND_FUNNAME can wait, if it waits with the object pool locked, service threads which are adding or removing objects will wait too, and nobody is able to send the messages it waits for.
+#define TCP_SAFE_BROADCAST_MSG(FUNNAME, SEND_FUNNAME) TCP_BROADCAST_MSG_NAME(FUNNAME, SEND_FUNNAME, do_something_to_all_unlocked)
 //TCP msg sending interface
 ///////////////////////////////////////////////////
 
diff --git a/include/object_pool.h b/include/object_pool.h
index f9a3c63..775c677 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -360,6 +360,19 @@ public:
 	template<typename _Predicate> void do_something_to_all(const _Predicate& __pred)
 		{ST_ASIO_SHARED_LOCK_TYPE<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex); for (BOOST_AUTO(iter, object_can.begin()); iter != object_can.end(); ++iter) __pred(iter->second);}
 
+	//like do_something_to_all, but __pred will be called without the lock, so it can block (without blocking additions and removals of objects).
+	template<typename _Predicate> void do_something_to_all_unlocked(const _Predicate& __pred)
+	{
+		boost::container::list<object_type> objects;
+
+		ST_ASIO_SHARED_LOCK_TYPE<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
+		for (BOOST_AUTO(iter, object_can.begin()); iter != object_can.end(); ++iter)
+			objects.emplace_back(iter->second);
+		lock.unlock();
+
+		st_asio_wrapper::do_something_to_all(objects, __pred);
+	}
+
 	template<typename _Predicate> void do_something_to_one(const _Predicate& __pred)
 	{
 		ST_ASIO_SHARED_LOCK_TYPE<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
diff --git a/include/tcp/client.h b/include/tcp/client.h
index dac52c5..7cf1104 100644
--- a/include/tcp/client.h
+++ b/include/tcp/client.h
@@ -76,8 +76,8 @@ public:
 	TCP_BROADCAST_MSG(broadcast_native_msg, send_native_msg)
 	//guarantee send msg successfully even if can_overflow equal to false
 	//success at here just means put the msg into tcp::socket_base's send buffer
-	TCP_BROADCAST_MSG(safe_broadcast_msg, safe_send_msg)
-	TCP_BROADCAST_MSG(safe_broadcast_native_msg, safe_send_native_msg)
+	TCP_SAFE_BROADCAST_MSG(safe_broadcast_msg, safe_send_msg)
+	TCP_SAFE_BROADCAST_MSG(safe_broadcast_native_msg, safe_send_native_msg)
 	//msg sending interface
 	///////////////////////////////////////////////////
 
diff --git a/include/tcp/server.h b/include/tcp/server.h
index f86bff6..5d6d699 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -185,8 +185,8 @@ public:
 	TCP_BROADCAST_MSG(broadcast_native_msg, send_native_msg)
 	//guarantee send msg successfully even if can_overflow equal to false
 	//success at here just means putting the msg into tcp::socket_base's send buffer
-	TCP_BROADCAST_MSG(safe_broadcast_msg, safe_send_msg)
-	TCP_BROADCAST_MSG(safe_broadcast_native_msg, safe_send_native_msg)
+	TCP_SAFE_BROADCAST_MSG(safe_broadcast_msg, safe_send_msg)
+	TCP_SAFE_BROADCAST_MSG(safe_broadcast_native_msg, safe_send_native_msg)
 	//msg sending interface
 	///////////////////////////////////////////////////
 
-- 
2.43.0


From 3034d6e075ca94b85b134295fc1afcf546917258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 22/40] fix: stopping a pump could lose what services emit
 while being stopped

---
 include/service_pump.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 59b0ddf..e93f448 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -312,11 +312,11 @@ public:
 	{
 		if (is_service_started())
 		{
+			do_something_to_all(boost::mem_fn(&i_service::stop_service)); //must before resetting the works, otherwise what services emit in uninit can be lost
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
 			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 				iter->work.reset();
 #endif
-			do_something_to_all(boost::mem_fn(&i_service::stop_service));
 		}
 	}
 
-- 
2.43.0


From 2bddc5e306f6a8d8a1caf7d9fda8ef3a9a61b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 23/40] fix: references of the first io_context were not
 counted until a second one was added

---
 include/service_pump.h | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index e93f448..206a6a1 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -156,9 +156,6 @@ public:
 
 	boost::asio::io_context& assign_io_context(bool increase_ref = true) //pick the context which has the least references
 	{
-		if (single_ctx)
-			return context_can.front().io_context;
-
 		context* ctx = NULL;
 		unsigned refs = 0;
 
@@ -188,29 +185,23 @@ public:
 
 	void return_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs -= refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs -= refs;
+				break;
+			}
 	}
 	void assign_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs += refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs += refs;
+				break;
+			}
 	}
 
 	object_type find(int id)
-- 
2.43.0


From 60565b80d7f4b8cea45999eb182be6f883266d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 24/40] fix: with ST_ASIO_DECREASE_THREAD_AT_RUNTIME an
 exception always ended the service thread

---
 include/service_pump.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 206a6a1..edd7293 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -465,7 +465,7 @@ protected:
 #ifdef ST_ASIO_NO_TRY_CATCH
 			this_n = ctx->io_context.run_one();
 #else
-			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (!on_exception(e)) break;}
+			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (on_exception(e)) continue;} //exit this thread if on_exception returned false
 #endif
 			if (this_n > 0)
 				n += this_n; //n can overflow, please note.
-- 
2.43.0


From 937b14eb307ebe3a9507a5677ad23bc47bb8c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 25/40] fix: decreasing service threads could leave an
 io_context without any thread or be lost

---
 include/service_pump.h | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index edd7293..5bd3f59 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -63,6 +63,9 @@ protected:
 	{
 		boost::asio::io_context io_context;
 		unsigned refs;
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+		atomic_int_fast32_t thread_num;
+#endif
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
 #if BOOST_ASIO_VERSION > 101100
 		boost::asio::executor_work_guard<boost::asio::io_context::executor_type> work;
@@ -77,6 +80,9 @@ protected:
 #else
 		context() : refs(0)
 #endif
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+			, thread_num(0)
+#endif
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
 #if BOOST_ASIO_VERSION > 101100
 			, work(io_context.get_executor())
@@ -355,10 +361,18 @@ public:
 			BOOST_AUTO(ctx, assign_thread());
 			if (NULL == ctx)
 				unified_out::error_out("no available io_context!");
-			else if (block && i + 1 == thread_num)
-				run(ctx); //block at here
 			else
-				ctx->threads.create_thread(boost::bind(&service_pump::run, this, ctx));
+			{
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+				//count it right now, otherwise, threads not begun yet will be missed when deciding whether a thread is the last one or not.
+				++ctx->thread_num;
+				++real_thread_num;
+#endif
+				if (block && i + 1 == thread_num)
+					run(ctx); //block at here
+				else
+					ctx->threads.create_thread(boost::bind(&service_pump::run, this, ctx));
+			}
 		}
 	}
 
@@ -444,17 +458,19 @@ protected:
 		unified_out::info_out(os.str().data());
 
 #ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
-		++real_thread_num;
 		while (true)
 		{
 			if (del_thread_num > 0)
 			{
 				if (--del_thread_num >= 0)
 				{
-					if (--real_thread_num > 0) //forbid to stop all service thread
+					if (--ctx->thread_num > 0) //forbid to stop all service thread of an io_context
+					{
+						--real_thread_num;
 						break;
+					}
 					else
-						++real_thread_num;
+						++ctx->thread_num;
 				}
 				else
 					++del_thread_num;
@@ -471,6 +487,7 @@ protected:
 				n += this_n; //n can overflow, please note.
 			else
 			{
+				--ctx->thread_num;
 				--real_thread_num;
 				break;
 			}
@@ -498,7 +515,11 @@ private:
 
 		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 		{
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+			size_t this_num = (size_t) iter->thread_num; //threads also contains threads that already been deleted
+#else
 			size_t this_num = iter->threads.size();
+#endif
 			if (0 == this_num || 0 == num || num > this_num)
 			{
 				num = this_num;
-- 
2.43.0


From a224ff822325bb7ae43c85c73d5931bc1ff48fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 26/40] fix: a graceful shutdown during the negotiation with a
 proxy was overwritten by the established link

---
 include/tcp/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..3608946 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -299,7 +299,7 @@ private:
 	void _force_shutdown() {if (FORCE_SHUTTING_DOWN != status) shutdown();}
 	void _graceful_shutdown()
 	{
-		if (is_broken())
+		if (is_broken() || HANDSHAKING == status) //nothing can be sent during the negotiation, and an established link must not overwrite the shutdown
 			shutdown();
 		else if (!is_shutting_down())
 		{
-- 
2.43.0


From a6d99feb2800ff6be2486c0dc7f64e009eaea9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 27/40] fix: a domain as socks5 target failed an assertion

---
 include/tcp/client_socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 77a5eed..8bfec06 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -36,9 +36,9 @@ public:
 		{
 			boost::system::error_code ec;
 #if BOOST_ASIO_VERSION >= 101100
-			BOOST_AUTO(addr, boost::asio::ip::make_address(ip, ec)); assert(!ec);
+			BOOST_AUTO(addr, boost::asio::ip::make_address(ip, ec)); //not an assertion, socks5 relies on it to tell domains from IP addresses
 #else
-			BOOST_AUTO(addr, boost::asio::ip::address::from_string(ip, ec)); assert(!ec);
+			BOOST_AUTO(addr, boost::asio::ip::address::from_string(ip, ec));
 #endif
 			if (ec)
 			{
-- 
2.43.0


From 39848cb3f642e2eb438882652814b72c353bd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 28/40] fix: socks4 sent the reply of the last negotiation as
 request when reconnecting

---
 include/tcp/proxy/socks.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8ce3e13..2770c85 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -75,20 +75,20 @@ private:
 			ST_THIS force_shutdown(false);
 		}
 		else
-			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(buff, 8),
+			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(reply, sizeof(reply)),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
 	void recv_handler(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
-		if (ec || 8 != bytes_transferred)
+		if (ec || sizeof(reply) != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
 			ST_THIS force_shutdown(false);
 		}
-		else if (90 != buff[1])
+		else if (90 != reply[1])
 		{
-			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) buff[1]);
+			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) reply[1]);
 			ST_THIS force_shutdown(false);
 		}
 		else
@@ -96,7 +96,8 @@ private:
 	}
 
 private:
-	char buff[16];
+	char buff[16]; //the request, kept for reconnecting
+	char reply[8];
 	size_t req_len;
 
 	boost::asio::ip::tcp::endpoint target_addr;
-- 
2.43.0


From 57ef248cc1ca7a77b292a162176e3927e276db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 29/40] fix: socks5 kept using a domain after an IP address had
 been set as target

---
 include/tcp/proxy/socks.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 2770c85..2f28971 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -140,6 +140,8 @@ public:
 		}
 		else if (!target_addr.address().is_v4() && !target_addr.address().is_v6())
 			return false;
+		else
+			target_domain.clear(); //a domain that was set before is not the target any more
 
 		step = 0;
 		return true;
-- 
2.43.0


From 63616c5551fc050b256d4939572708a391591695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 30/40] fix: socks5 sent empty credentials when the proxy chose
 an authentication that was not offered

---
 include/tcp/proxy/socks.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 2f28971..4dbab0b 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -293,7 +293,7 @@ private:
 					++step; //skip auth step
 					return send_request();
 				}
-				else if (2 == buff[1])
+				else if (2 == buff[1] && !username.empty()) //without username and password, we didn't offer this method
 					return send_auth();
 				else
 				{
-- 
2.43.0


From 86a2c9a6508d5583338a7f083cf837103d6609c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 31/40] fix: socks5 failed or lost application data depending
 on how the reply was segmented

---
 include/tcp/proxy/socks.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 4dbab0b..514a388 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -220,10 +220,11 @@ private:
 		if (!target_domain.empty())
 		{
 			buff[3] = 3;
-			buff[4] = (char) std::min<size_t>(target_domain.size(), sizeof(buff) - 7);
-			memcpy(boost::next(buff, 5), target_domain.data(), (size_t) buff[4]);
-			*((unsigned short*) boost::next(buff, 5 + buff[4])) = htons(target_port);
-			req_len = 7 + buff[4];
+			size_t len = std::min<size_t>(target_domain.size(), sizeof(buff) - 7);
+			buff[4] = (char) len;
+			memcpy(boost::next(buff, 5), target_domain.data(), len);
+			*((unsigned short*) boost::next(buff, 5 + len)) = htons(target_port);
+			req_len = 7 + len;
 		}
 		else if (target_addr.address().is_v4())
 		{
@@ -262,7 +263,8 @@ private:
 		else
 		{
 			++step;
-			ST_THIS next_layer().async_read_some(boost::asio::buffer(buff, sizeof(buff)),
+			//never read beyond the reply, the rest belongs to the application, 5 bytes are enough to know the length of the reply for a request
+			ST_THIS next_layer().async_read_some(boost::asio::buffer(buff, 3 == step ? 5 : 2),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 		}
 	}
@@ -279,6 +281,7 @@ private:
 		{
 			bool succ = true;
 			bool continue_read = false;
+			size_t len = 2; //length of the whole reply
 			if (1 == step) //parse method
 			{
 				if (res_len < 2)
@@ -320,15 +323,16 @@ private:
 			}
 			else if (3 == step) //parse request
 			{
-				size_t len = 6;
+				len = 5;
 				if (res_len < len)
 					continue_read = true;
 				else if (0 == buff[1])
 				{
+					len = 6;
 					if (1 == buff[3])
 						len += 4;
 					else if (3 == buff[3])
-						len += 1 + buff[4];
+						len += 1 + (unsigned char) buff[4];
 					else if (4 == buff[3])
 						len += 16;
 
@@ -362,13 +366,13 @@ private:
 				ST_THIS force_shutdown(false);
 			}
 			else
-				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), sizeof(buff) - res_len),
+				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), len - res_len),
 					ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 		}
 	}
 
 private:
-	char buff[64];
+	char buff[7 + 255]; //can hold the longest request and reply (with a domain of 255 characters)
 	size_t req_len, res_len;
 	int step;
 
-- 
2.43.0


From 951e5877340fd1993a112bddc9c8b36406baebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:06 +0000
Subject: [PATCH 32/40] fix: end a suspended reception together with its link

after a reconnection the link still claimed to be suspended (is_recv_idle) although it was receiving, and the time was added to recv_idle_sum
---
 include/socket.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 562410a..92298ce 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -465,6 +465,7 @@ protected:
 		if (stopped())
 		{
 			unpacker_->reset(); //very important, otherwise, the unpacker will never be able to parse any more messages if its buffer has legacy data
+			end_recv_idle(); //the suspended reception ends with the link, the next link (if any) starts to receive at once
 			on_close();
 			after_close();
 			obsoleted_ = true;
@@ -733,15 +734,20 @@ private:
 	}
 #endif
 
+	void end_recv_idle()
+	{
+		if (recv_idle_began)
+		{
+			recv_idle_began = false;
+			stat.recv_idle_sum += statistic::now() - recv_idle_begin_time;
+		}
+	}
+
 	bool check_receiving(bool raise_recv)
 	{
 		if (is_recv_buffer_available())
 		{
-			if (recv_idle_began)
-			{
-				recv_idle_began = false;
-				stat.recv_idle_sum += statistic::now() - recv_idle_begin_time;
-			}
+			end_recv_idle();
 
 			if (raise_recv)
 				recv_msg(); //receive msg in sequence
@@ -846,6 +852,7 @@ private:
 				lowest_layer().close(ec);
 			}
 			unpacker_->reset(); //very important, otherwise, the unpacker will never be able to parse any more messages if its buffer has legacy data
+			end_recv_idle(); //the suspended reception ends with the link, the next link (if any) starts to receive at once
 			on_close();
 			change_timer_status(id, timer_info::TIMER_CANCELED);
 			after_close();
-- 
2.43.0


From 12ed60635c061c75c150fd1c7974a94a940b7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:19 +0000
Subject: [PATCH 33/40] fix: callbacks can be registered on UDP sockets

g_socket assumed the TCP signature of on_send_error, so wrapping a UDP socket did not compile; udp_socket wraps UDP sockets now
---
 include/ext/callbacks.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/ext/callbacks.h b/include/ext/callbacks.h
index 51b19bd..7648b6f 100644
--- a/include/ext/callbacks.h
+++ b/include/ext/callbacks.h
@@ -40,7 +40,7 @@ template<typename CallBack> void register_##fun(const CallBack& cb, bool pass_on
 void register_##fun(fo_##fun* cb, bool pass_on = init) \
 	{cb_##fun.first = boost::bind(cb, boost::placeholders::_1, boost::placeholders::_2, boost::placeholders::_3); cb_##fun.second = !pass_on;}
 
-template<typename Socket> class g_socket : public Socket //udp socket will use g_socket only
+template<typename Socket> class g_socket : public Socket //the common part of tcp_socket and udp_socket
 {
 public:
 	typedef bool fo_obsoleted(Socket*);
@@ -48,7 +48,6 @@ public:
 	typedef void fo_send_heartbeat(Socket*);
 	typedef void fo_reset(Socket*);
 	typedef bool fo_on_heartbeat_error(Socket*);
-	typedef void fo_on_send_error(Socket*, const boost::system::error_code&, typename Socket::in_container_type&);
 	typedef void fo_on_recv_error(Socket*, const boost::system::error_code&);
 	typedef void fo_on_close(Socket*);
 	typedef void fo_after_close(Socket*);
@@ -83,7 +82,6 @@ public:
 	register_cb_1(send_heartbeat, false)
 	register_cb_1(reset, true)
 	register_cb_1(on_heartbeat_error, true)
-	register_cb_3(on_send_error, true)
 	register_cb_2(on_recv_error, true)
 	register_cb_1(on_close, true)
 	register_cb_1(after_close, true)
@@ -110,7 +108,6 @@ private:
 	call_cb_combine(Socket, is_ready)
 	call_cb_void(Socket, send_heartbeat)
 	call_cb_combine(Socket, on_heartbeat_error)
-	virtual void on_send_error(const boost::system::error_code& ec, typename Socket::in_container_type& msg_can) call_cb_2_void(Socket, on_send_error, ec, msg_can)
 	virtual void on_recv_error(const boost::system::error_code& ec) call_cb_1_void(Socket, on_recv_error, ec)
 	call_cb_void(Socket, on_close)
 	call_cb_void(Socket, after_close)
@@ -142,7 +139,6 @@ private:
 	std::pair<boost::function<fo_send_heartbeat>, bool> cb_send_heartbeat;
 	std::pair<boost::function<fo_reset>, bool> cb_reset;
 	std::pair<boost::function<fo_on_heartbeat_error>, bool> cb_on_heartbeat_error;
-	std::pair<boost::function<fo_on_send_error>, bool> cb_on_send_error;
 	std::pair<boost::function<fo_on_recv_error>, bool> cb_on_recv_error;
 	std::pair<boost::function<fo_on_close>, bool> cb_on_close;
 	std::pair<boost::function<fo_after_close>, bool> cb_after_close;
@@ -167,6 +163,7 @@ private:
 template<typename Socket> class tcp_socket : public g_socket<Socket>
 {
 public:
+	typedef void fo_on_send_error(Socket*, const boost::system::error_code&, typename Socket::in_container_type&);
 	typedef void fo_on_connect(Socket*);
 	typedef void fo_on_unpack_error(Socket*);
 	typedef void fo_on_async_shutdown_error(Socket*);
@@ -175,21 +172,42 @@ public:
 	template<typename Arg> tcp_socket(Arg& arg) : g_socket<Socket>(arg) {}
 	template<typename Arg1, typename Arg2> tcp_socket(Arg1& arg1, Arg2& arg2) : g_socket<Socket>(arg1, arg2) {}
 
+	register_cb_3(on_send_error, true)
 	register_cb_1(on_connect, false)
 	register_cb_1(on_unpack_error, true)
 	register_cb_1(on_async_shutdown_error, true)
 
 private:
+	virtual void on_send_error(const boost::system::error_code& ec, typename Socket::in_container_type& msg_can) call_cb_2_void(Socket, on_send_error, ec, msg_can)
 	call_cb_void(Socket, on_connect)
 	call_cb_void(Socket, on_unpack_error)
 	call_cb_void(Socket, on_async_shutdown_error)
 
 private:
+	std::pair<boost::function<fo_on_send_error>, bool> cb_on_send_error;
 	std::pair<boost::function<fo_on_connect>, bool> cb_on_connect;
 	std::pair<boost::function<fo_on_unpack_error>, bool> cb_on_unpack_error;
 	std::pair<boost::function<fo_on_async_shutdown_error>, bool> cb_on_async_shutdown_error;
 };
 
+template<typename Socket> class udp_socket : public g_socket<Socket> //for udp socket, whose messages are sent one by one
+{
+public:
+	typedef void fo_on_send_error(Socket*, const boost::system::error_code&, typename Socket::in_msg&);
+
+public:
+	template<typename Arg> udp_socket(Arg& arg) : g_socket<Socket>(arg) {}
+	template<typename Arg1, typename Arg2> udp_socket(Arg1& arg1, Arg2& arg2) : g_socket<Socket>(arg1, arg2) {}
+
+	register_cb_3(on_send_error, true)
+
+private:
+	virtual void on_send_error(const boost::system::error_code& ec, typename Socket::in_msg& msg) call_cb_2_void(Socket, on_send_error, ec, msg)
+
+private:
+	std::pair<boost::function<fo_on_send_error>, bool> cb_on_send_error;
+};
+
 template<typename Socket> class c_socket : public tcp_socket<Socket> //for client socket
 {
 public:
-- 
2.43.0


From 285e6b5bdf3824cc953fa0b756cbf21d492b41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:13 +0000
Subject: [PATCH 34/40] fix: the strand of the handlers of TCP reading and
 writing was lost by type erasure, the ones of TLS handshake and shutdown had
 no strand, so a TLS stream could be used by several threads at the same time

---
 include/tcp/socket.h  | 13 ++++++-------
 include/tcp/ssl/ssl.h |  7 ++++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 3608946..1f5d527 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,9 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//don't hold call_back in a boost::function, otherwise, the strand associated with it will be lost
+	template<typename CallBack> bool async_read(const CallBack& call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -37,7 +36,7 @@ protected:
 		}
 
 		boost::asio::async_read(ST_THIS next_layer(), recv_buff,
-			boost::bind(&reader_writer::completion_checker, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred), call_back);
+			boost::bind(&reader_writer::completion_checker, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred), CallBack(call_back));
 		return true;
 	}
 	bool parse_msg(size_t bytes_transferred, list<OutMsgType>& msg_can) {return ST_THIS unpacker()->parse_msg(bytes_transferred, msg_can);}
@@ -50,8 +49,8 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename CallBack>
+	void async_write(const Buffer& msg_can, const CallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, CallBack(call_back));}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
@@ -482,13 +481,13 @@ private:
 
 protected:
 	volatile link_status status;
+	using super::rw_strand;
 
 private:
 	using super::stat;
 	using super::temp_msg_can;
 
 	using super::send_buffer;
-	using super::rw_strand;
 
 	//although boost::container::list::size() has constant complexity, but user can use std::list via macro or template parameter,
 	//before gcc 5.0, std::list::size() has linear complexity, very embarrassing!
diff --git a/include/tcp/ssl/ssl.h b/include/tcp/ssl/ssl.h
index dc9c635..dcf6c10 100644
--- a/include/tcp/ssl/ssl.h
+++ b/include/tcp/ssl/ssl.h
@@ -50,7 +50,8 @@ private:
 	{
 		ST_THIS show_info("ssl link:", "been shutting down.");
 		ST_THIS start_graceful_shutdown_monitoring();
-		ST_THIS next_layer().async_shutdown(ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error)));
+		ST_THIS next_layer().async_shutdown(make_strand_handler(ST_THIS rw_strand,
+			ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error))));
 	}
 
 	//do not stop the shutdown monitoring at here, sometimes, this async_shutdown cannot trigger on_recv_error,
@@ -105,7 +106,7 @@ private:
 		{
 			ST_THIS status = super::HANDSHAKING;
 			ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::client,
-				ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+				make_strand_handler(ST_THIS rw_strand, ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		}
 		else
 			super::connect_handler(ec);
@@ -161,7 +162,7 @@ protected:
 	{
 		ST_THIS status = super::HANDSHAKING;
 		ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::server,
-			ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+			make_strand_handler(ST_THIS rw_strand, ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		return true;
 	}
 
-- 
2.43.0


From 3aebf05db0dd27ef92150451893be316f9274156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:18 +0000
Subject: [PATCH 35/40] fix: on_close of a TLS link was never called if the end
 of the connection was noticed by reading while async_shutdown was waiting for
 the answer

---
 include/tcp/ssl/ssl.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/tcp/ssl/ssl.h b/include/tcp/ssl/ssl.h
index dcf6c10..a5e3226 100644
--- a/include/tcp/ssl/ssl.h
+++ b/include/tcp/ssl/ssl.h
@@ -41,7 +41,12 @@ protected:
 		else
 			ST_THIS show_info(ec, NULL, "handshake failed");
 	}
-	virtual void on_recv_error(const boost::system::error_code& ec) {ST_THIS stop_graceful_shutdown_monitoring(); Socket::on_recv_error(ec);}
+	virtual void on_recv_error(const boost::system::error_code& ec)
+	{
+		ST_THIS stop_graceful_shutdown_monitoring();
+		Socket::on_recv_error(ec);
+		close_lowest_layer();
+	}
 
 	void shutdown_ssl() {ST_THIS status = Socket::GRACEFUL_SHUTTING_DOWN; ST_THIS dispatch_in_io_strand(boost::bind(&socket::async_shutdown, this));}
 
@@ -56,7 +61,23 @@ private:
 
 	//do not stop the shutdown monitoring at here, sometimes, this async_shutdown cannot trigger on_recv_error,
 	//very strange, maybe, there's a bug in Asio. so we stop it in on_recv_error.
-	void shutdown_handler(const boost::system::error_code& ec) {if (ec) ST_THIS show_info(ec, "ssl link", "async shutdown failed");}
+	void shutdown_handler(const boost::system::error_code& ec)
+	{
+		if (ec)
+		{
+			ST_THIS show_info(ec, "ssl link", "async shutdown failed");
+			if (!ST_THIS started())
+				close_lowest_layer();
+		}
+	}
+
+	//reading and async_shutdown share the incoming data, after the link has broken, only one of them can notice that via the socket,
+	//so let the other one (which may not even have begun to receive) fail, otherwise it prevents on_close from being called.
+	void close_lowest_layer()
+	{
+		boost::system::error_code ec;
+		ST_THIS lowest_layer().close(ec);
+	}
 
 private:
 	boost::asio::ssl::context& ctx;
-- 
2.43.0


From 463a339e9008858aa9c906f509c96945d5b3da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 36/40] fix: handlers of websocket reading, writing, handshake
 and closing ran outside of the IO strand, so a websocket stream could be used
 by several threads at the same time

---
 include/tcp/websocket/websocket.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..8830475 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//don't hold call_back in a boost::function, otherwise, the strand associated with it will be lost
+	template<typename CallBack> void async_read(const CallBack& call_back) {super::async_read(recv_buff, CallBack(call_back));}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& buff, const CallBack& call_back) {super::async_write(buff, CallBack(call_back));}
 
 protected:
 	//helper function, just call it in constructor
@@ -110,11 +108,11 @@ protected:
 		this->dispatch_in_io_strand([this]() {
 			this->show_info("websocket link:", "been shutting down.");
 			this->start_graceful_shutdown_monitoring();
-			this->next_layer().async_close(boost::beast::websocket::close_code::normal, this->make_handler_error([this](const boost::system::error_code& ec) {
+			this->next_layer().async_close(boost::beast::websocket::close_code::normal, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {
 				this->stop_graceful_shutdown_monitoring();
 				if (ec)
 					this->show_info(ec, "websocket link", "async shutdown failed");
-			}));
+			})));
 		});
 	}
 };
@@ -178,7 +176,8 @@ protected:
 		// Provide the value of the Host HTTP header during the WebSocket handshake.
 		// See https://tools.ietf.org/html/rfc7230#section-5.4
 		// Perform the websocket handshake
-		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/", this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/",
+			make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 	}
 
 private:
@@ -227,7 +226,7 @@ protected:
 		}));
 #endif
 		// Accept the websocket handshake
-		this->next_layer().async_accept(this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_accept(make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 		return true;
 	}
 
-- 
2.43.0


From c744d9e5ff42fd80dc7dc95c41f1ff69ad6e9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:30 +0000
Subject: [PATCH 37/40] fix: a websocket link stopped receiving after an empty
 message

---
 include/tcp/socket.h              | 14 +++++++++++---
 include/tcp/websocket/websocket.h |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 1f5d527..59d0945 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -286,6 +286,14 @@ protected:
 	virtual void on_unpack_error() = 0;
 	virtual void on_async_shutdown_error() = 0;
 
+	//read 0 byte without any errors, return true to ignore it and continue to receive
+	virtual bool on_empty_msg()
+	{
+		assert(false);
+		unified_out::error_out(ST_ASIO_LLF " read 0 byte without any errors is unexpected, please check your unpacker!", ST_THIS id());
+		return false;
+	}
+
 private:
 	using super::close;
 	using super::handle_error;
@@ -367,10 +375,10 @@ private:
 			if (handle_msg() && !ec) //if macro ST_ASIO_PASSIVE_RECV been defined, handle_msg will always return false
 				do_recv_msg(); //receive msg in sequence
 		}
-		else if (!ec)
+		else if (!ec && on_empty_msg())
 		{
-			assert(false);
-			unified_out::error_out(ST_ASIO_LLF " read 0 byte without any errors is unexpected, please check your unpacker!", ST_THIS id());
+			stat.last_recv_time = time(NULL);
+			do_recv_msg(); //receive msg in sequence
 		}
 
 		if (ec)
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index 8830475..0fa268a 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -102,6 +102,8 @@ protected:
 			this->show_info(ec, nullptr, "handshake failed");
 	}
 
+	virtual bool on_empty_msg() {return true;} //websocket supports empty messages, ignore them
+
 	void shutdown_websocket()
 	{
 		this->status = Socket::GRACEFUL_SHUTTING_DOWN;
-- 
2.43.0


From 44b8f4e632ee8e2851db6929ba232a947c751d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 38/40] fix: file_client: keep a transfer going (and the next
 files queued) when only some of the links failed to start it

---
 file_client/file_client.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_client/file_client.h b/file_client/file_client.h
index e4fea8d..814fcd5 100644
--- a/file_client/file_client.h
+++ b/file_client/file_client.h
@@ -423,14 +423,15 @@ private:
 			else
 				do_something_to_all(boost::lambda::if_then(!boost::lambda::bind(&file_socket::truncate_file, *boost::lambda::_1, boost::lambda::constant_ref(file_name), true), boost::lambda::var(re) = false));
 
-			if (re)
+			if (!re)
+				printf("transmit %s failed!\n", file_name.data());
+
+			if (re || !is_end()) //if only some of the links failed, wait for the others
 			{
 				begin_time.start();
 				set_timer(UPDATE_PROGRESS, 50, boost::bind(&file_client::update_progress_handler, this, boost::placeholders::_1, -1));
 				break;
 			}
-			else
-				printf("transmit %s failed!\n", file_name.data());
 		}
 	}
 
-- 
2.43.0


From 1aa819cc2cc955ff230d070a8e394f90b23816c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 39/40] fix: file_server: refuse to receive a file piece with a
 negative offset or without a positive length

---
 file_server/file_socket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_server/file_socket.cpp b/file_server/file_socket.cpp
index 38fe4ba..6858c94 100644
--- a/file_server/file_socket.cpp
+++ b/file_server/file_socket.cpp
@@ -194,7 +194,8 @@ void file_socket::handle_msg(out_msg_ctype& msg)
 			memcpy(boost::next(buffer, ORDER_LEN), &length, DATA_LEN);
 
 			const char* file_name = boost::next(msg.data(), ORDER_LEN + OFFSET_LEN + DATA_LEN);
-			file = fopen(file_name, "r+b");
+			if (offset >= 0 && length > 0) //never trust what the peer sent
+				file = fopen(file_name, "r+b");
 			if (NULL == file)
 			{
 				printf("can not open file %s\n", file_name);
-- 
2.43.0


From c5cb14e4e99a00bc9acf3376a42e899b0f8026ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:21 +0000
Subject: [PATCH 40/40] fix: file_server: keep orders that arrive while the
 previous reply is still being sent

---
 file_server/file_socket.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/file_server/file_socket.cpp b/file_server/file_socket.cpp
index 6858c94..dfc8e57 100644
--- a/file_server/file_socket.cpp
+++ b/file_server/file_socket.cpp
@@ -26,7 +26,17 @@ void file_socket::take_over(boost::shared_ptr<server_socket::type_of_object_rest
 //void file_socket::take_over(boost::shared_ptr<file_socket> socket_ptr) {printf("restore user data from invalid object (" ST_ASIO_LLF ").\n", socket_ptr->id());}
 
 //msg handling
-bool file_socket::on_msg_handle(out_msg_type& msg) {handle_msg(msg); if (0 == get_pending_recv_msg_size()) recv_msg(); return true;}
+bool file_socket::on_msg_handle(out_msg_type& msg)
+{
+	if (!msg.empty() && is_sending())
+		return false; //avoid accessing the send queue concurrently, because we use non_lock_queue, this order will be dispatched again later
+
+	handle_msg(msg);
+	if (0 == get_pending_recv_msg_size())
+		recv_msg();
+
+	return true;
+}
 //msg handling end
 
 #ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
-- 
2.43.0

