From a76fe214f4679be6c7b5542813db037611178e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 01/35] fix: a directory created meanwhile by another channel
 is not an error

---
 src/include/fn_file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..305dc73 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -36,6 +36,7 @@
 #include <memory>
 #include <atomic>
 #include <fcntl.h>
+#include <errno.h>
 #ifdef WIN32
 #ifndef KEEP_INPUT_QUICK_EDIT
 #define KEEP_INPUT_QUICK_EDIT false
@@ -268,7 +269,8 @@ namespace FNLog
 #ifdef WIN32
                 ret = CreateDirectoryA(cur.c_str(), nullptr) ? true : false;
 #else
-                ret = (mkdir(cur.c_str(), S_IRWXU | S_IRWXG | S_IRWXO) == 0);
+                //another channel may have created it meanwhile
+                ret = (mkdir(cur.c_str(), S_IRWXU | S_IRWXG | S_IRWXO) == 0 || errno == EEXIST);
 #endif
                 if (!ret)
                 {
-- 
2.43.0


From d947ce4d462acdf5dcddd9fb3d4e490e3dd999b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:28 +0000
Subject: [PATCH 02/35] fix: ring indexes no longer wrap, a stalled thread
 could publish or release a slot of a later lap

---
 src/include/fn_channel.h | 39 +++++++++++++++------------------------
 src/include/fn_core.h    |  4 ++--
 src/include/fn_data.h    | 10 ++++++----
 src/include/fn_load.h    | 19 ++++++++-----------
 4 files changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..4da8732 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -106,8 +106,8 @@ namespace FNLog
             bool empty_tick = true;
             do
             {
-                int old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
-                int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                long long old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
+                long long next_idx = old_idx + 1;
                 if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
                 {
                     //empty branch    
@@ -120,23 +120,14 @@ namespace FNLog
                     //only one thread get log. this branch will not hit.   
                     break;
                 }
-                auto& cur_log = ring_buffer.buffer_[old_idx];
+                auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
                 DispatchLog(logger, channel, cur_log);
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
                 flush_count ++;
                 empty_tick = false;
-                int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
-                int proc_que_size = 0;
-                if (old_idx <= write_id)
-                {
-                    proc_que_size = write_id - old_idx;
-                }
-                else
-                {
-                    proc_que_size = write_id + RingBuffer::BUFFER_LEN - old_idx;
-                }
+                long long proc_que_size = ring_buffer.write_idx_.load(std::memory_order_acquire) - old_idx;
 
                 if (proc_que_size > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE))
                 {
@@ -156,12 +147,12 @@ namespace FNLog
                 {
                     //set read index to proc index  
                     old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                    next_idx = old_idx + 1;
                     if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
                     {
                         break;
                     }
-                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
+                    if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
                     {
                         break;
                     }
@@ -452,17 +443,17 @@ namespace FNLog
                 {
                     break;
                 }
-                int old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
-                int hold_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-                if (hold_idx == ring_buffer.read_idx_.load(std::memory_order_acquire))
+                long long old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
+                if (old_idx + 1 >= ring_buffer.read_idx_.load(std::memory_order_acquire) + RingBuffer::BUFFER_LEN)
                 {
                     break;
                 }
-                if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
+                if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, old_idx + 1))
                 {
+                    int slot = (int)(old_idx % RingBuffer::BUFFER_LEN);
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
-                    ring_buffer.buffer_[old_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
-                    return old_idx;
+                    ring_buffer.buffer_[slot].data_mark_.store(MARK_HOLD, std::memory_order_release);
+                    return slot;
                 }
                 continue;
             }
@@ -501,13 +492,13 @@ namespace FNLog
 
         do
         {
-            int old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
-            int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+            long long old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
+            long long next_idx = old_idx + 1;
             if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
             {
                 break;
             }
-            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != 2)
+            if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != 2)
             {
                 break;
             }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..6937eaf 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -155,8 +155,8 @@ namespace FNLog
 
             while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
             {
-                ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
-                ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[ring_buffer.read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ = 0;
+                ring_buffer.read_idx_ = ring_buffer.read_idx_ + 1;
             }
             ring_buffer.read_idx_ = 0;
             ring_buffer.proc_idx_ = 0;
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..4cbe1b4 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -283,14 +283,16 @@ namespace FNLog
         static const int BUFFER_LEN = FN_LOG_MAX_LOG_QUEUE_SIZE;
         static_assert(BUFFER_LEN > 10, "ring queue size too little");
     public:
+        //the indexes only grow, the slot is "idx % BUFFER_LEN":
+        //a wrapped index would let a thread that stalled for a whole lap pass its compare exchange.
         char chunk_1_[CHUNK_SIZE];
-        std::atomic_int write_idx_;
+        std::atomic_llong write_idx_;
         char chunk_2_[CHUNK_SIZE];
-        std::atomic_int hold_idx_;
+        std::atomic_llong hold_idx_;
         char chunk_3_[CHUNK_SIZE];
-        std::atomic_int read_idx_;
+        std::atomic_llong read_idx_;
         char chunk_4_[CHUNK_SIZE];
-        std::atomic_int proc_idx_;
+        std::atomic_llong proc_idx_;
         char chunk_5_[CHUNK_SIZE];
         LogData buffer_[BUFFER_LEN];
         char chunk_6_[CHUNK_SIZE];
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..c8d9d73 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -97,15 +97,17 @@ namespace FNLog
                 return E_SHM_VERSION_WRONG;
             }
 
-            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].write_idx_ < 0)
+            if (shm->ring_buffers_[i].read_idx_ < 0
+                || shm->ring_buffers_[i].write_idx_ < shm->ring_buffers_[i].read_idx_
+                || shm->ring_buffers_[i].hold_idx_ < shm->ring_buffers_[i].write_idx_
+                || shm->ring_buffers_[i].hold_idx_ >= shm->ring_buffers_[i].read_idx_ + RingBuffer::BUFFER_LEN)
             {
                 return E_SHM_VERSION_WRONG;
             }
 
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
-                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
+                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
@@ -116,20 +118,15 @@ namespace FNLog
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
 
-                shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                shm->ring_buffers_[i].write_idx_ = shm->ring_buffers_[i].write_idx_ + 1;
             }
             shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
 
-            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
-                || shm->ring_buffers_[i].read_idx_ < 0)
-            {
-                return -10;
-            }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
             if (shm->ring_buffers_[i].read_idx_ != 0 || shm->ring_buffers_[i].write_idx_ != 0)
             {
-                printf("attach shm key:<0x%llx> channel:<%d>, write:<%d>, read:<%d> \n", logger.shm_key_,
-                    i, shm->ring_buffers_[i].write_idx_.load(), (int)shm->ring_buffers_[i].read_idx_.load());
+                printf("attach shm key:<0x%llx> channel:<%d>, write:<%lld>, read:<%lld> \n", logger.shm_key_,
+                    i, (long long)shm->ring_buffers_[i].write_idx_.load(), (long long)shm->ring_buffers_[i].read_idx_.load());
             }
         }
         logger.shm_ = shm;
-- 
2.43.0


From cecea481e67b9857a034a60303b65752b07e915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 03/35] fix: a statement in progress over a stop and a start no
 longer loses or corrupts records of the next session

---
 src/include/fn_channel.h | 10 ++++------
 src/include/fn_core.h    | 22 +---------------------
 2 files changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 4da8732..3c7a008 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -467,7 +467,7 @@ namespace FNLog
 
     inline int PushChannel(Logger& logger, int channel_id, int hold_idx)
     {
-        if (channel_id >= logger.shm_->channel_size_ || channel_id < 0)
+        if (channel_id >= Logger::MAX_CHANNEL_SIZE || channel_id < 0)
         {
             return E_INVALID_CHANNEL_SIZE;
         }
@@ -477,11 +477,9 @@ namespace FNLog
         }
         Channel& channel = logger.shm_->channels_[channel_id];
         RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-        if (channel.channel_state_ != CHANNEL_STATE_RUNNING)
-        {
-            return E_LOGGER_NOT_RUNNING;
-        }
 
+        //a held slot is always published, also when the channel was stopped meanwhile: 
+        //otherwise the slot would block the queue of the next session.
         LogData& log = ring_buffer.buffer_[hold_idx];
         log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
         log.content_[log.content_len_++] = '\n';
@@ -506,7 +504,7 @@ namespace FNLog
             {
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PUSH, 1);
             }
-        } while (channel.channel_state_ == CHANNEL_STATE_RUNNING);
+        } while (true);
 
         if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
         {
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 6937eaf..6d31763 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -147,26 +147,6 @@ namespace FNLog
         return 0;
     }
 
-    inline int CleanChannels(Logger& logger)
-    {
-        for (int channel_id = 0; channel_id < logger.shm_->channel_size_; channel_id++)
-        {
-            RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
-            {
-                ring_buffer.buffer_[ring_buffer.read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ = 0;
-                ring_buffer.read_idx_ = ring_buffer.read_idx_ + 1;
-            }
-            ring_buffer.read_idx_ = 0;
-            ring_buffer.proc_idx_ = 0;
-            ring_buffer.write_idx_ = 0;
-            ring_buffer.hold_idx_ = 0;
-        }
-        return 0;
-    }
-
-
     inline int StopLogger(Logger& logger)
     {
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
@@ -187,8 +167,8 @@ namespace FNLog
             return E_LOGGER_NOT_RUNNING;
         }
         logger.logger_state_ = LOGGER_STATE_CLOSING;
+        //statements still in progress keep their slots, the indexes must not be reset under them. 
         StopChannels(logger);
-        CleanChannels(logger);
         
         for (auto& writer : logger.file_handles_)
         {
-- 
2.43.0


From ebecf25422eef5f9bc67fe192dc848cd1b355e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 04/35] fix: stopping deadlocked with a channel thread that was
 about to apply a hot update

---
 src/include/fn_load.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index c8d9d73..fd41402 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -320,8 +320,9 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
-        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
+        //never wait here: a stop holds the state lock while it waits for this thread.
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock() || logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
         }
-- 
2.43.0


From 6d727e78a81f8390bc5888c54c4a4472fdf66c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 05/35] fix: synchronous channels are written by one thread at
 a time, in order, and not after the stop

---
 src/include/fn_channel.h | 25 ++++++++++++++++++-------
 src/include/fn_core.h    |  6 +++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 3c7a008..275dd79 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -24,8 +24,7 @@ namespace FNLog
     {
         Channel& channel = logger.shm_->channels_[channel_id];
         Device& device = channel.devices_[device_id];
-        //async promise only single thread proc. needn't lock.
-        Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+        //only single thread proc: the async thread or the holder of the read lock. needn't lock.
         switch (device.out_type_)
         {
         case DEVICE_OUT_SCREEN:
@@ -122,9 +121,10 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN];
                 DispatchLog(logger, channel, cur_log);
-                cur_log.data_mark_ = 0;
+                const long long log_timestamp = cur_log.timestamp_;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                cur_log.data_mark_ = 0;
                 flush_count ++;
                 empty_tick = false;
                 long long proc_que_size = ring_buffer.write_idx_.load(std::memory_order_acquire) - old_idx;
@@ -134,10 +134,10 @@ namespace FNLog
                     AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE, proc_que_size);
                 }
 
-                if (cur_log.timestamp_ > 0)
+                if (log_timestamp > 0)
                 {
                     long long now = (long long)time(NULL);
-                    long long diff = now - 1 - cur_log.timestamp_;
+                    long long diff = now - 1 - log_timestamp;
                     if (diff > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S) )
                     {
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
@@ -259,6 +259,17 @@ namespace FNLog
             channel.channel_state_ = CHANNEL_STATE_FINISH;
         }
     }
+
+    //sync channel: one thread at a time, so a record is out in queue order when the call returns, and never after the stop.
+    inline void EnterProcSyncChannel(Logger& logger, int channel_id)
+    {
+        Logger::ReadGuard rg(logger.read_locks_[channel_id]);
+        Channel& channel = logger.shm_->channels_[channel_id];
+        if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
+        {
+            EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+        }
+    }
     
     
 
@@ -506,9 +517,9 @@ namespace FNLog
             }
         } while (true);
 
-        if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
+        if (channel.channel_type_ == CHANNEL_SYNC)
         {
-            EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+            EnterProcSyncChannel(logger, channel_id);
         }
         return 0;
     }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 6d31763..5a26c7a 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -38,6 +38,7 @@ namespace FNLog
             {
             case CHANNEL_SYNC:
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                EnterProcSyncChannel(logger, channel_id); //recovered or left over records
                 break;
             case CHANNEL_ASYNC:
             {
@@ -83,8 +84,11 @@ namespace FNLog
             switch (channel.channel_type_)
             {
             case CHANNEL_SYNC:
+            {
+                Logger::ReadGuard rg(logger.read_locks_[channel_id]); //wait for the writing thread
                 channel.channel_state_ = CHANNEL_STATE_NULL;
-                break;
+            }
+            break;
             case CHANNEL_ASYNC:
             {
                 if (thd.joinable())
-- 
2.43.0


From 8beeb252662c8adcc0aed6ac61e196ad8a310a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 06/35] fix: a log statement read its record after it was
 handed over

---
 src/include/fn_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 275dd79..0fbb427 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -496,8 +496,8 @@ namespace FNLog
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
+        log.data_mark_ = 2; //the slot may be reused from now on
 
         do
         {
-- 
2.43.0


From 42f584c79779b6b56aeb0666f50f75c3239e9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 07/35] fix: a start that fails leaves no thread, running
 channel or open handle behind

---
 src/include/fn_channel.h |  7 +++---
 src/include/fn_core.h    | 48 +++++++++++++++++++++++-----------------
 src/include/fn_data.h    |  2 +-
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 0fbb427..6a62a15 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -175,10 +175,9 @@ namespace FNLog
             } while (true);  
 
 
-            if (channel.channel_state_ == CHANNEL_STATE_NULL)
-            {
-                channel.channel_state_ = CHANNEL_STATE_RUNNING;
-            }
+            //a start that gave up waiting has asked to finish already
+            unsigned int null_state = CHANNEL_STATE_NULL;
+            channel.channel_state_.compare_exchange_strong(null_state, CHANNEL_STATE_RUNNING);
 
             if (flush_count != 0)
             {
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 5a26c7a..1f23309 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -42,7 +42,13 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::system_error&)
+                {
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
@@ -93,10 +99,7 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
-                    if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
-                    {
-                        channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-                    }
+                    channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
                     thd.join();
                 }
                 channel.channel_state_ = CHANNEL_STATE_NULL;
@@ -110,6 +113,24 @@ namespace FNLog
         return 0;
     }
 
+    inline void CloseLoggerHandles(Logger& logger)
+    {
+        for (auto& writer : logger.file_handles_)
+        {
+            if (writer.is_open())
+            {
+                writer.close();
+            }
+        }
+        for (auto& writer : logger.udp_handles_)
+        {
+            if (writer.is_open())
+            {
+                writer.close();
+            }
+        }
+    }
+
     inline int StartLogger(Logger& logger)
     {
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
@@ -143,6 +164,7 @@ namespace FNLog
         if (ret != 0)
         {
             StopChannels(logger);
+            CloseLoggerHandles(logger);
             logger.logger_state_ = LOGGER_STATE_UNINIT;
             printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_);
             return ret;
@@ -173,21 +195,7 @@ namespace FNLog
         logger.logger_state_ = LOGGER_STATE_CLOSING;
         //statements still in progress keep their slots, the indexes must not be reset under them. 
         StopChannels(logger);
-        
-        for (auto& writer : logger.file_handles_)
-        {
-            if (writer.is_open())
-            {
-                writer.close();
-            }
-        }
-        for (auto& writer : logger.udp_handles_)
-        {
-            if (writer.is_open())
-            {
-                writer.close();
-            }
-        }
+        CloseLoggerHandles(logger);
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
     }
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index 4cbe1b4..91cac6d 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -318,7 +318,7 @@ namespace FNLog
         int  channel_type_;
         int virtual_device_id_;
         int device_size_;
-        unsigned int channel_state_;
+        std::atomic<unsigned int> channel_state_;
         ConfigFields config_fields_;
         Device devices_[MAX_DEVICE_SIZE];
 
-- 
2.43.0


From 4ae308929005fad2dd0f1df633be4f427d93f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 08/35] fix: a restart within the reopen delay dropped the udp
 output

---
 src/include/fn_core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 1f23309..a552c1a 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -128,6 +128,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.open_ts_ = 0; //the reopen delay is for failures, not for a restart
         }
     }
 
-- 
2.43.0


From 6f7c38da7656f4a08895e9f35cc63544907bbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 09/35] fix: stop and the configuration calls crashed before
 the first start

---
 src/include/fn_core.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index a552c1a..f01e359 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -176,6 +176,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -256,7 +261,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -270,7 +275,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -284,7 +289,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -302,7 +307,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -320,7 +325,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -338,6 +343,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -347,6 +356,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (logger.shm_ == NULL)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From 363f2d3499e30a082e95d0193585d5de734e1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 10/35] fix: udp input wrote stale bytes after a datagram to
 the screen and a NUL byte after a long one

---
 src/include/fn_channel.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 6a62a15..909d75d 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -230,11 +230,13 @@ namespace FNLog
                 {
                     InitLogData(logger, ring_buffer.udp_buffer_, channel.channel_id_, PRIORITY_INFO, 0, 0, LOG_PREFIX_NULL);
                     ring_buffer.udp_buffer_.content_len_ = udp.read(ring_buffer.udp_buffer_.content_, LogData::LOG_SIZE);
-                    if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE)
+                    if (ring_buffer.udp_buffer_.content_len_ >= LogData::LOG_SIZE)
                     {
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_ = LogData::LOG_SIZE - 1;
+                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\n';
                     }
+                    //the screen device uses the content like c-string
+                    ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From d06fbbba3cc9583db6a4ac18b9b96af06a2e188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 11/35] fix: a udp socket that could not be made non-blocking
 stayed in use

---
 src/include/fn_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 305dc73..af23e3e 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -480,6 +480,7 @@ public:
         int ret = fcntl(handler_, F_SETFL, newf);
         if (ret == -1)
         {
+            close();
             return -2;
         }
 #endif
-- 
2.43.0


From 99d8d9d8723cca63d0bf293b34aba2511c587d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 12/35] fix: a configuration without shm_key or virtual device
 used uninitialised or foreign values

---
 src/include/fn_parse.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..2880ac7 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1419,6 +1419,7 @@ namespace FNLog
         ls.line_no_ = 1; 
         ls.desc_len_ = 0;
         ls.name_len_ = 0;
+        ls.shm_key_ = 0;
         do
         {
             const char* current = ls.current_;
@@ -1493,6 +1494,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1;
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From cf8d462a3cda015fbe9edee3f5488d42a0f23906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 13/35] fix: a disabled virtual device still called the hook

---
 src/include/fn_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index d361d99..08664eb 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -183,7 +183,7 @@ namespace FNLog
                     if (channel.virtual_device_id_ >= 0)
                     {
                         Device& device = channel.devices_[channel.virtual_device_id_];
-                        if (log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
+                        if (device.config_fields_[DEVICE_CFG_ABLE] && log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
                         {
                             //more block check in the proc 
                             EnterProcOutVirtualDevice(*logger_, log_data_->channel_id_, channel.virtual_device_id_, *log_data_);
-- 
2.43.0


From 033f6aa6f08810d768e2d3388103d3407cb7c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 14/35] fix: the time in the prefix was wrong after a change of
 the local time offset

---
 src/include/fn_fmt.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..ec5e2ff 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -321,17 +321,15 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        //cache per minute: within a day the offset of the local time may change.
+        long long cache_second = timestamp - cache_timestamp;
+        if (cache_second < 0 || cache_second >= 60)
         {
-            cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp - timestamp % 60;
+            cache_date = FileHandler::time_to_tm((time_t)cache_timestamp);
+            cache_second = timestamp - cache_timestamp;
         }
+        long long day_second = cache_date.tm_hour * 3600 + cache_date.tm_min * 60 + cache_date.tm_sec + cache_second;
         int write_bytes = 0;
 
         *(dst + write_bytes++) = '[';
-- 
2.43.0


From edc0aec094df4d8b0e2668a0f804f862c7e3d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 15/35] fix: time rotation misfiled records on days with a
 change of the local time offset

---
 src/include/fn_out_file_device.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..1e8994a 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -189,6 +189,18 @@ namespace FNLog
     }
 
 
+    //is it the same local day or hour 
+    inline bool SameLocalPeriod(long long first, long long second, bool hourly)
+    {
+        if (first / 900 == second / 900) //the offset of local time only changes on the quarter hour 
+        {
+            return true;
+        }
+        tm a = FileHandler::time_to_tm(first);
+        tm b = FileHandler::time_to_tm(second);
+        return a.tm_year == b.tm_year && a.tm_yday == b.tm_yday && (!hourly || a.tm_hour == b.tm_hour);
+    }
+
     inline void OpenFileDevice(Logger & logger, Channel & channel, Device & device, FileHandler & writer, LogData & log)
     {
         (void)logger;
@@ -212,8 +224,10 @@ namespace FNLog
             //daily rolling
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 24 * 3600)
+                //a local day has 23 to 25 hours. 
+                if ((log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 3600
+                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 22 * 3600)
+                    && !SameLocalPeriod(log.timestamp_, AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP), false))
                 {
                     close_file = true;
                 }
@@ -223,8 +237,7 @@ namespace FNLog
             //hourly rolling 
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLHOURLY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR) + 3600)
+                if (!SameLocalPeriod(log.timestamp_, AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP), true))
                 {
                     close_file = true;
                 }
-- 
2.43.0


From 29127263767f12b5d3e306935de0555a70f06f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 16/35] fix: with shared memory a slot was given back before
 its record was flushed

---
 src/include/fn_channel.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 909d75d..750396d 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -94,7 +94,21 @@ namespace FNLog
     }
 
     inline void InitLogData(Logger& logger, LogData& log, int channel_id, int priority, int category, unsigned long long identify, unsigned int prefix);
- 
+
+    //give the slots of the processed records back.
+    //with shared memory only after the flush: until then a crash would lose the buffered bytes.
+    inline void ReleaseProcessedLog(RingBuffer& ring_buffer)
+    {
+        long long read_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
+        while (read_idx != ring_buffer.proc_idx_.load(std::memory_order_acquire))
+        {
+            LogData& log = ring_buffer.buffer_[read_idx % RingBuffer::BUFFER_LEN];
+            log.content_len_ = 0; //a recovery never shows old text as text of the next record
+            log.data_mark_ = MARK_INVALID;
+            ring_buffer.read_idx_ = ++read_idx;
+        }
+    }
+
     inline void EnterProcChannel(Logger& logger, int channel_id)
     {
         Channel& channel = logger.shm_->channels_[channel_id];
@@ -124,7 +138,6 @@ namespace FNLog
                 const long long log_timestamp = cur_log.timestamp_;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
-                cur_log.data_mark_ = 0;
                 flush_count ++;
                 empty_tick = false;
                 long long proc_que_size = ring_buffer.write_idx_.load(std::memory_order_acquire) - old_idx;
@@ -143,21 +156,10 @@ namespace FNLog
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
                     }
                 }
-                do
+                if (logger.shm_key_ <= 0)
                 {
-                    //set read index to proc index  
-                    old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = old_idx + 1;
-                    if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
-                    {
-                        break;
-                    }
-                    if (ring_buffer.buffer_[old_idx % RingBuffer::BUFFER_LEN].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
-                    {
-                        break;
-                    }
-                    ring_buffer.read_idx_.compare_exchange_strong(old_idx, next_idx);
-                } while (true);  
+                    ReleaseProcessedLog(ring_buffer);
+                }
 
                 //if want the high log security can reduce this threshold or enable shared memory queue.  
                 if (flush_count > FN_LOG_FORCE_FLUSH_QUE)
@@ -171,6 +173,7 @@ namespace FNLog
                             logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
                         }
                     }
+                    ReleaseProcessedLog(ring_buffer);
                 }
             } while (true);  
 
@@ -188,6 +191,7 @@ namespace FNLog
                         logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
                     }
                 }
+                ReleaseProcessedLog(ring_buffer);
             }
 
             for (int i = 0; i < channel.device_size_; i++)
-- 
2.43.0


From e4201bb6c15f777f3d9365893a34c0d3e51a3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 17/35] fix: shared memory recovery marked completed records,
 wrote half written line ends and rejected its own unfinished segment

---
 src/include/fn_load.h | 58 +++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index fd41402..4b6c92f 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -83,41 +83,67 @@ namespace FNLog
             shm = (SHMLogger*)addr;
         }
 
+        if (shm->shm_id_ == 0 && (shm->shm_size_ == 0 || shm->shm_size_ == (int)sizeof(SHMLogger)) && shm->channel_size_ == 0)
+        {
+            //the creator stopped before the segment was complete. 
+            struct shmid_ds shm_stat;
+            if (shmctl(idx, IPC_STAT, &shm_stat) == 0 && shm_stat.shm_segsz == sizeof(SHMLogger))
+            {
+                ResetSHMLogger(*shm);
+                shm->shm_size_ = sizeof(SHMLogger);
+                shm->shm_id_ = idx;
+            }
+        }
+
         if (shm->shm_size_ != sizeof(SHMLogger) || shm->shm_id_ != idx)
         {
             printf("shm version error. key:<0x%llx>, old id:<%d>, new id:<%d>, old size:<%d> new size:<%d>. "
                 "can use 'ipcs -m', 'ipcrm -m' to view and clear.\n",
                 logger.shm_key_, shm->shm_id_, idx, shm->shm_size_, (int)sizeof(SHMLogger));
+            shmdt(shm);
             return E_SHM_VERSION_WRONG;
         }
-        for (int i = 0; i < shm->channel_size_; i++)
+        for (int i = 0; i < SHMLogger::MAX_CHANNEL_SIZE; i++)
         {
-            if (i >= SHMLogger::MAX_CHANNEL_SIZE)
-            {
-                return E_SHM_VERSION_WRONG;
-            }
-
             if (shm->ring_buffers_[i].read_idx_ < 0
                 || shm->ring_buffers_[i].write_idx_ < shm->ring_buffers_[i].read_idx_
                 || shm->ring_buffers_[i].hold_idx_ < shm->ring_buffers_[i].write_idx_
                 || shm->ring_buffers_[i].hold_idx_ >= shm->ring_buffers_[i].read_idx_ + RingBuffer::BUFFER_LEN)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
+            //released already
+            while (shm->ring_buffers_[i].read_idx_ != shm->ring_buffers_[i].write_idx_
+                && shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].read_idx_ % RingBuffer::BUFFER_LEN].data_mark_ == MARK_INVALID)
+            {
+                shm->ring_buffers_[i].read_idx_ = shm->ring_buffers_[i].read_idx_ + 1;
+            }
+
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_ % RingBuffer::BUFFER_LEN];
-                log.data_mark_ = 2;
-                log.priority_ = PRIORITY_FATAL;
-                std::string core_desc = "!!!core recover!!!";
-                log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
-                memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
-
-                log.content_len_ += core_desc.length();
-                log.content_[log.content_len_++] = '\n';
-                log.content_[log.content_len_] = '\0';
-
+                //a ready record is complete, it only waits for an unfinished one before it
+                if (log.data_mark_ != MARK_READY)
+                {
+                    const std::string core_desc = "!!!core recover!!!\n";
+                    log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 1);
+                    //the crash may have hit the push or the previous recovery of this record
+                    while (log.content_len_ > 0 && (log.content_[log.content_len_ - 1] == '\n' || log.content_[log.content_len_ - 1] == '\0'))
+                    {
+                        log.content_len_--;
+                    }
+                    const int mark_len = (int)core_desc.length() - 1;
+                    if (log.content_len_ >= mark_len && memcmp(&log.content_[log.content_len_ - mark_len], core_desc.c_str(), mark_len) == 0)
+                    {
+                        log.content_len_ -= mark_len;
+                    }
+                    memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length() + 1);
+                    log.content_len_ += (int)core_desc.length();
+                    log.priority_ = PRIORITY_FATAL;
+                    log.data_mark_ = MARK_READY;
+                }
                 shm->ring_buffers_[i].write_idx_ = shm->ring_buffers_[i].write_idx_ + 1;
             }
             shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
-- 
2.43.0


From 0f4bb1ca3dbb0d2fdcb7308ec8afedc4ce5c948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 18/35] fix: a later configuration with another shm_key
 released the memory the wrong way

---
 src/include/fn_load.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 4b6c92f..5d7f9e8 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -238,9 +238,9 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            logger.shm_key_ = ls->shm_key_; //describes the memory in use, which stays until the end
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From ac2934e1ae882a5ead74e7e3576e807ddbbc831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 19/35] fix: after a backward clock step outputs and hot update
 stayed off until the old time was reached

---
 src/include/fn_file.h            | 5 +++--
 src/include/fn_load.h            | 2 +-
 src/include/fn_out_file_device.h | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index af23e3e..3869859 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -454,11 +454,12 @@ public:
 
     int open()
     {
-        if (time(NULL) <= open_ts_ + 2)
+        time_t now = time(NULL);
+        if (now >= open_ts_ && now <= open_ts_ + 2)
         {
             return 0; //but not open
         }
-        open_ts_ = time(NULL);
+        open_ts_ = now;
 
         handler_ = socket(AF_INET, SOCK_DGRAM, 0);
         if (handler_ == FNLOG_INVALID_SOCKET)
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 5d7f9e8..8f13aa7 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -314,7 +314,7 @@ namespace FNLog
 
         Channel& dst_chl = logger.shm_->channels_[channel_id];
         time_t now = time(nullptr);
-        if (now - dst_chl.last_hot_check_ < Logger::HOTUPDATE_INTERVEL)
+        if (now >= dst_chl.last_hot_check_ && now - dst_chl.last_hot_check_ < Logger::HOTUPDATE_INTERVEL)
         {
             return 0;
         }
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 1e8994a..3a518a4 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -335,7 +335,8 @@ namespace FNLog
         Device& device = channel.devices_[device_id];
         FileHandler& writer = logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + device_id];
 
-        if (!writer.is_open() && AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) + 5 > log.timestamp_)
+        const long long last_try = AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP);
+        if (!writer.is_open() && log.timestamp_ >= last_try && log.timestamp_ < last_try + 5)
         {
             return;
         }
-- 
2.43.0


From 33d96d958dcd4f40441098b1be399b170fdd2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 20/35] fix: hot update switched itself off before every
 channel had the new configuration

---
 src/include/fn_load.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8f13aa7..5f4628e 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -348,7 +348,12 @@ namespace FNLog
 
         //never wait here: a stop holds the state lock while it waits for this thread.
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
-        if (!state_guard.owns_lock() || logger.logger_state_ != LOGGER_STATE_RUNNING)
+        if (!state_guard.owns_lock())
+        {
+            dst_chl.last_hot_check_ = 0; //another channel may be updating, try again soon
+            return E_LOGGER_IN_USE;
+        }
+        if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
         }
@@ -357,7 +362,16 @@ namespace FNLog
             return E_DISABLE_HOTUPDATE;
         }
         dst_chl.yaml_mtime_ = file_stat.st_mtime;
-        logger.hot_update_ = ls->hot_update_;
+        //switch off only when no other channel still needs this version
+        bool all_updated = true;
+        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        {
+            if (logger.shm_->channels_[i].yaml_mtime_ != file_stat.st_mtime)
+            {
+                all_updated = false;
+            }
+        }
+        logger.hot_update_ = ls->hot_update_ || !all_updated;
         
         static_assert(std::is_same<decltype(logger.shm_->channels_), decltype(ls->channels_)>::value, "");
         //static_assert(std::is_trivial<decltype(logger.shm_->channels_)>::value, "");
-- 
2.43.0


From df0c059ff940fe62c9352eb2375dfb59def9ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 21/35] fix: records that could not be sent or written were
 counted as written

---
 src/include/fn_file.h            | 6 ++++--
 src/include/fn_out_file_device.h | 5 ++++-
 src/include/fn_out_udp_device.h  | 1 +
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 3869859..8d776e5 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -100,7 +100,7 @@ namespace FNLog
         inline bool is_open();
         inline long open(const char* path, const char* mod, struct stat& file_stat);
         inline void close();
-        inline void write(const char* data, size_t len);
+        inline bool write(const char* data, size_t len);
         inline void flush();
 
         inline std::string read_line();
@@ -177,15 +177,17 @@ namespace FNLog
         return file_ != nullptr;
     }
 
-    void FileHandler::write(const char* data, size_t len)
+    bool FileHandler::write(const char* data, size_t len)
     {
         if (file_ && len > 0)
         {
             if (fwrite(data, 1, len, file_) != len)
             {
                 close();
+                return false;
             }
         }
+        return true;
     }
     void FileHandler::flush()
     {
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 3a518a4..d414a27 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -345,7 +345,10 @@ namespace FNLog
         {
             return;
         }
-        writer.write(log.content_, log.content_len_);
+        if (!writer.write(log.content_, log.content_len_))
+        {
+            return;
+        }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_CUR_FILE_SIZE, log.content_len_);
diff --git a/src/include/fn_out_udp_device.h b/src/include/fn_out_udp_device.h
index 56eb98a..0a73866 100644
--- a/src/include/fn_out_udp_device.h
+++ b/src/include/fn_out_udp_device.h
@@ -38,6 +38,7 @@ namespace FNLog
         if (ret <= 0)
         {
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
+            return;
         }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From 247b410d8f099b3446cecca8dc056e72030debfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 22/35] fix: a crash in the push could leave a stale byte in
 the recovered record

---
 src/include/fn_channel.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 750396d..7fceb5a 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -497,9 +497,11 @@ namespace FNLog
         //a held slot is always published, also when the channel was stopped meanwhile: 
         //otherwise the slot would block the queue of the next session.
         LogData& log = ring_buffer.buffer_[hold_idx];
-        log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
-        log.content_[log.content_len_++] = '\n';
-        log.content_[log.content_len_] = '\0';
+        const int content_len = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
+        log.content_[content_len] = '\n';
+        log.content_[content_len + 1] = '\0';
+        std::atomic_signal_fence(std::memory_order_release); //the length never covers stale bytes, also at a crash
+        log.content_len_ = content_len + 1;
 
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
         log.data_mark_ = 2; //the slot may be reused from now on
-- 
2.43.0


From 8d1be34e9730f943b001b0c1b5dbb311285a8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:50 +0000
Subject: [PATCH 23/35] fix: the hook saw a zero byte at the end of a record
 that fills the buffer

---
 src/include/fn_out_virtual_device.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 0bc34ef..2935cb0 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -60,8 +60,8 @@ namespace FNLog
                 return;
             }
 
-            int content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 1);
-            log.content_[content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
+            log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2); //as PushChannel does  
+            log.content_[log.content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
 
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From d598418811c6a197e9b523af40f33e385c3af4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 24/35] fix: hot update applied an empty or cut off
 configuration and switched itself off

---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 5f4628e..cccad3c 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -344,7 +344,10 @@ namespace FNLog
         {
             return ret;
         }
-
+        if (ls->channel_size_ <= channel_id)
+        {
+            return E_INVALID_CHANNEL_SIZE; //empty or cut off, e.g. just being written
+        }
 
         //never wait here: a stop holds the state lock while it waits for this thread.
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
-- 
2.43.0


From 62387e576d792269d3f46a2bf9008b0941188e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 25/35] fix: a failed rename in a rotation overwrote the next
 backup

---
 src/include/fn_file.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 8d776e5..6415359 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -389,10 +389,11 @@ namespace FNLog
         }
         next_path += ".";
         next_path += std::to_string(depth);
-        rollback(next_path, depth + 1, max_depth);
-        int ret = ::rename(path.c_str(), next_path.c_str());
-        (void)ret;
-        return true;
+        if (!rollback(next_path, depth + 1, max_depth))
+        {
+            return false; //the next backup is still in its place, renaming would overwrite it
+        }
+        return ::rename(path.c_str(), next_path.c_str()) == 0;
     }
 
     inline int short_path(const char* path, int len)
-- 
2.43.0


From bd481cc779ff53e63bac77141880837e765c272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 26/35] fix: the identify range of a channel was cut to 32 bits
 when loaded

---
 src/include/fn_parse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 2880ac7..78b71d7 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1342,10 +1342,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From 4a206171b30e30bac74fc0a5461a7308265b8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 27/35] fix: a filter mask that names value 63 lost it when
 loaded

---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 78b71d7..39f26b2 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1197,10 +1197,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1215,10 +1215,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_LIMIT_SIZE:
                 device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
@@ -1336,10 +1336,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1354,10 +1354,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From 2f0f84ec3a4f1c039255ea69ac1bf5c3707bc7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 28/35] fix: a start with fewer channels reset the counters of
 the others

---
 src/include/fn_load.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index cccad3c..1651d01 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -249,7 +249,7 @@ namespace FNLog
             }
         }
         logger.shm_->channel_size_ = ls->channel_size_;
-        for (int i = 0; i < ls->channel_size_; i++)
+        for (int i = 0; i < Logger::MAX_CHANNEL_SIZE; i++) //also those a later configuration may use again
         {
             memcpy(&ls->channels_[i].channel_log_fields_, &logger.shm_->channels_[i].channel_log_fields_,
                 sizeof(ls->channels_[i].channel_log_fields_));
-- 
2.43.0


From e3a7e3a4a3202a3cb98c08084dd0a0edd43ed5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 29/35] fix: removing the hook while another thread logs called
 a null pointer

---
 src/include/fn_out_virtual_device.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 2935cb0..ab22535 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -31,7 +31,8 @@ namespace FNLog
     //can used translate log  
     inline void EnterProcOutVirtualDevice(Logger& logger, int channel_id, int device_id, LogData& log)
     {
-        if (RefVirtualDevice())
+        const VirtualDevicePtr hook = RefVirtualDevice(); //another thread may remove it meanwhile
+        if (hook)
         {
             Channel& channel = logger.shm_->channels_[channel_id];
             Device::ConfigFields& fields = channel.devices_[device_id].config_fields_;
@@ -66,7 +67,7 @@ namespace FNLog
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_PRIORITY + log.priority_, log.content_len_);
-            (*RefVirtualDevice())(log);
+            (*hook)(log);
         }
     }
 }
-- 
2.43.0


From b47b47afbb4cdd20b9b90fbe7b2e98daa7be3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 30/35] fix: a virtual output added by a hot update was never
 called

---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 1651d01..e825ec4 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -417,7 +417,10 @@ namespace FNLog
                 return E_VERSION_MISMATCH;
             }
             memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
+            {
+                dst_chl.virtual_device_id_ = device_id;
+            }
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
-- 
2.43.0


From 71d79b0b317bf2124e034af079dca889ff41709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 31/35] fix: the sign of a small negative number was dropped

---
 src/include/fn_fmt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index ec5e2ff..6478740 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -273,7 +273,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From d2bd8d7c908a136c3ec88329a8f1345bd1922763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 32/35] fix: a streamed timestamp of the first minute of the
 epoch came out as 19000100

---
 src/include/fn_fmt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 6478740..8482124 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -323,7 +323,7 @@ namespace FNLog
         static const char date_fmt[] = "[20190412 13:05:35.417]";
         //cache per minute: within a day the offset of the local time may change.
         long long cache_second = timestamp - cache_timestamp;
-        if (cache_second < 0 || cache_second >= 60)
+        if (cache_second < 0 || cache_second >= 60 || cache_date.tm_mday == 0)
         {
             cache_timestamp = timestamp - timestamp % 60;
             cache_date = FileHandler::time_to_tm((time_t)cache_timestamp);
-- 
2.43.0


From 1efdfffaef677d712f42c2cc5a8f9cf32e50990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 33/35] fix: a binary dump of a zero byte crashed or wrote out
 of bounds

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 8482124..d4fb169 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = sizeof(number) * 8 - __builtin_clzll(number | 1);
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
-- 
2.43.0


From 980bf6b7192d6678e76dbcac133ed5daeb8f2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:13 +0000
Subject: [PATCH 34/35] fix: a small backward clock step prolonged the delay
 before a failed output was opened again

---
 src/include/fn_core.h            |  1 +
 src/include/fn_file.h            | 15 ++++++++++++---
 src/include/fn_out_file_device.h | 10 +++++++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index f01e359..147ff33 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -121,6 +121,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.retry_ts_ = 0;
         }
         for (auto& writer : logger.udp_handles_)
         {
diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 6415359..aa6a084 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -35,6 +35,7 @@
 #include <unordered_set>
 #include <memory>
 #include <atomic>
+#include <chrono>
 #include <fcntl.h>
 #include <errno.h>
 #ifdef WIN32
@@ -113,11 +114,13 @@ namespace FNLog
         static inline std::string process_name();
         static inline bool remove_file(const std::string& path);
         static inline struct tm time_to_tm(time_t t);
+        static inline long long steady_second();
 
         static inline bool rollback(const std::string& path, int depth, int max_depth);
     public:
         char chunk_1_[128];
         FILE* file_;
+        long long retry_ts_; //steady second before which a failed open is not tried again
     };
 
 
@@ -165,6 +168,7 @@ namespace FNLog
     FileHandler::FileHandler()
     {
         file_ = nullptr;
+        retry_ts_ = 0;
         chunk_1_[0] = '\0';
     }
     FileHandler::~FileHandler()
@@ -369,6 +373,11 @@ namespace FNLog
 #endif
     }
 
+    //not changed by steps of the wall clock
+    long long FileHandler::steady_second()
+    {
+        return (long long)std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
+    }
 
 
     bool FileHandler::rollback(const std::string& path, int depth, int max_depth)
@@ -457,8 +466,8 @@ public:
 
     int open()
     {
-        time_t now = time(NULL);
-        if (now >= open_ts_ && now <= open_ts_ + 2)
+        long long now = FNLog::FileHandler::steady_second();
+        if (open_ts_ != 0 && now <= open_ts_ + 2)
         {
             return 0; //but not open
         }
@@ -550,7 +559,7 @@ public:
     }
 public:
     char chunk_1_[128];
-    time_t open_ts_;
+    long long open_ts_;
     struct sockaddr_in addr_;
     FNLOG_SOCKET handler_;
 };
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index d414a27..db36abf 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -335,10 +335,14 @@ namespace FNLog
         Device& device = channel.devices_[device_id];
         FileHandler& writer = logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + device_id];
 
-        const long long last_try = AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP);
-        if (!writer.is_open() && log.timestamp_ >= last_try && log.timestamp_ < last_try + 5)
+        if (!writer.is_open())
         {
-            return;
+            const long long now = FileHandler::steady_second();
+            if (AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) != 0 && now < writer.retry_ts_)
+            {
+                return;
+            }
+            writer.retry_ts_ = now + 5;
         }
         OpenFileDevice(logger, channel, device, writer, log);
         if (!writer.is_open())
-- 
2.43.0


From 2763edfe40b1b7250f8b58bc8cf771d1b1465a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 35/35] fix: returning to a period or reopening after an error
 pushed the backups out

---
 src/include/fn_core.h            |  1 +
 src/include/fn_file.h            |  2 ++
 src/include/fn_out_file_device.h | 10 +++++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 147ff33..bc77b7a 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -122,6 +122,7 @@ namespace FNLog
                 writer.close();
             }
             writer.retry_ts_ = 0;
+            writer.newest_ts_ = 0;
         }
         for (auto& writer : logger.udp_handles_)
         {
diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index aa6a084..abccae5 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -121,6 +121,7 @@ namespace FNLog
         char chunk_1_[128];
         FILE* file_;
         long long retry_ts_; //steady second before which a failed open is not tried again
+        long long newest_ts_; //latest time for which a file was opened
     };
 
 
@@ -169,6 +170,7 @@ namespace FNLog
     {
         file_ = nullptr;
         retry_ts_ = 0;
+        newest_ts_ = 0;
         chunk_1_[0] = '\0';
     }
     FileHandler::~FileHandler()
diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index db36abf..9d50cb7 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -261,6 +261,12 @@ namespace FNLog
             return;
         }
 
+        //reopened after an error, or back to a period that has its file already, because records are not quite in the order
+        //of time or the clock stepped back: the file is continued, the backups must not be pushed out by that.
+        const bool period_roll = AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY) || AtomicLoadC(device, DEVICE_CFG_FILE_ROLLHOURLY);
+        const bool continue_file = writer.newest_ts_ != 0 && (!period_roll || log.timestamp_ < writer.newest_ts_
+            || SameLocalPeriod(log.timestamp_, writer.newest_ts_, !AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY)));
+
         long long create_day = 0;
         long long create_hour = 0;
         tm t = FileHandler::time_to_tm(log.timestamp_);
@@ -299,7 +305,7 @@ namespace FNLog
         if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0 || AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0)
         {
             bool stuff_up = (bool)AtomicLoadC(device, DEVICE_CFG_FILE_STUFF_UP);
-            if (!stuff_up || limit_out)
+            if ((!stuff_up && !continue_file) || limit_out)
             {
                 //when no rollback but has limit size. need try rollback once.
                 long long limit_roll = device.config_fields_[DEVICE_CFG_FILE_ROLLBACK];
@@ -308,6 +314,8 @@ namespace FNLog
             }
         }
 
+        writer.newest_ts_ = FN_MAX(writer.newest_ts_, (long long)log.timestamp_);
+
         struct stat file_stat;
         long writed_byte = writer.open(path.c_str(), "ab", file_stat);
         if (!writer.is_open())
-- 
2.43.0

