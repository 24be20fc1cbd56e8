From 842fbeb7e2505dee61e04b74a4a9ecc64ec47a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 01/49] fix: release the shared frame when the last filter
 still holding it leaves

A frame shared by several filters is released once all of them have removed it. If
the last filter that had not removed it yet disconnected, nobody released it any
more and the remaining filters never saw a new frame.
---
 src/IOInterface.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..76cbf95 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -205,6 +205,14 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //the leaving filter may have been the last one holding the current frame
+        if (frame && !ready && allRead()){
+            frame = NULL;
+            ready = true;
+            if (queue){
+                queue->removeFrame();
+            }
+        }
         return true;
     }
     
-- 
2.43.0


From 0519e21dd318377f463b7551aa7d4e8db4720646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 02/49] fix: forget the current frame of a reader whose queue
 is gone

disconnectQueue() may delete the queue, which owns the frame the reader still
pointed to, and removeFrame() dereferenced a NULL frame when nothing had been read.
---
 src/IOInterface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 76cbf95..d1e0c36 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -53,6 +53,8 @@ bool Reader::disconnectQueue()
     }
     
     queue = NULL;
+    frame = NULL;
+    ready = true;
     
     return true;
 }
@@ -127,7 +129,7 @@ int Reader::removeFrame(int fId)
         filters[fId].second = false;
     }
     
-    if (allRead()){
+    if (frame && allRead()){
         measureDelay();
         frame = NULL;
         ready = true;
-- 
2.43.0


From 4b6e7aba8b9476461201269c9cee451357ddb247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/49] fix: take the reader's lock in every accessor of its
 connection

isConnected(), getQueue(), getCurrentTime() and isFull() read the queue and the
current frame without the lock while another filter sharing the reader changes
them; the last two also dereferenced a NULL queue.
---
 src/IOInterface.cpp | 21 +++++++++++++++++++--
 src/IOInterface.hh  |  4 ++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index d1e0c36..5c3181c 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -180,7 +180,7 @@ size_t Reader::getLostBlocs()
 void Reader::setConnection(FrameQueue *queue)
 {
     std::lock_guard<std::mutex> guard(lck);
-    if (!queue || isConnected()){
+    if (!queue || (this->queue && this->queue->isConnected())){
         return;
     }
     
@@ -223,6 +223,8 @@ bool Reader::disconnect(int id)
 
 bool Reader::isConnected()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (!queue) {
         return false;
     }
@@ -243,9 +245,15 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (frame){
         return frame->getFrameTime();
     }
+
+    if (!queue){
+        return NO_DTS;
+    }
     
     Frame *f;
     
@@ -259,7 +267,16 @@ std::chrono::microseconds Reader::getCurrentTime()
 
 bool Reader::isFull() const
 {
-    return queue->isFull(); 
+    std::lock_guard<std::mutex> guard(lck);
+
+    return queue ? queue->isFull() : false;
+}
+
+FrameQueue* Reader::getQueue() const
+{
+    std::lock_guard<std::mutex> guard(lck);
+
+    return queue;
 }
 
 
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..b0242be 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -153,7 +153,7 @@ public:
     * Get FrameQueue object pointer
     * @return FrameQueue object pointer
     */
-    FrameQueue* getQueue() const {return queue;};
+    FrameQueue* getQueue() const;
 
     /**
     * Updates connection data and if there isn't anyother filter liked with this 
@@ -216,7 +216,7 @@ private:
     std::map<int, std::pair<bool, bool>> filters;
     bool ready;
     
-    std::mutex lck;
+    mutable std::mutex lck;
 
     //Stats
     std::chrono::microseconds avgDelay;
-- 
2.43.0


From 7528613a84a0bdf5344de6be50ebc3995d6a72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 04/49] fix: take the filter's lock to number produced frames

---
 src/Filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..953cd97 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -800,6 +800,7 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
     for (auto it : dFrames) {
         if (it.second->getConsumed()){
             it.second->setOriginTime(std::chrono::high_resolution_clock::now());
+            std::lock_guard<std::mutex> guard(mtx);
             it.second->setSequenceNumber(seqNums[it.first]++);
         }
     }
@@ -874,6 +875,7 @@ bool ManyToOneFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
     }
 
     dFrames.begin()->second->setOriginTime(std::chrono::high_resolution_clock::now());
+    std::lock_guard<std::mutex> guard(mtx);
     dFrames.begin()->second->setSequenceNumber(seqNums[dFrames.begin()->first]++);
     return true;
 }
-- 
2.43.0


From 35b9a04026dcfdc52431b47682e8f0c30f0f3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 05/49] fix: take the sharing filter's lock before registering
 the shared reader

---
 src/Filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 953cd97..eab9353 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -273,6 +273,8 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From bdf7294cf85542ebb4e10183a9fa71c5f91464fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 06/49] fix: do not hold a filter's lock while its event is
 delivered upstream

---
 src/Filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index eab9353..61aec2e 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -737,7 +737,7 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
 
 void BaseFilter::sendEvent(Event e, int readerId)
 {
-    std::lock_guard<std::mutex> guard(mtx);
+    std::unique_lock<std::mutex> guard(mtx);
     ConnectionData cData;
     
     if (readers.count(readerId)<= 0){
@@ -745,6 +745,8 @@ void BaseFilter::sendEvent(Event e, int readerId)
     }
     if (readers[readerId]->isConnected()){
         cData = readers[readerId]->getQueue()->getCData();
+        //NOTE: delivery takes the lock of the preceding filter, this one has to be released before
+        guard.unlock();
         PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
     }
 }
-- 
2.43.0


From a1058972837b93573be62eeb33f90793135eb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 07/49] fix: refuse to connect a filter to itself instead of
 deadlocking

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 61aec2e..56a0c69 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -327,6 +327,11 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
+    if (R == this) {
+        utils::errorMsg("A filter cannot be connected to itself");
+        return false;
+    }
+
     processEvent();
     R->processEvent();
 
-- 
2.43.0


From a8420a5eff56716753791e6dd678aef9c0ec3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 08/49] fix: serialise the producer and the consumers of the
 audio buffer

---
 src/AudioCircularBuffer.cpp | 11 +++++++++--
 src/AudioCircularBuffer.hh  |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..bd66622 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -102,6 +102,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     unsigned paddingSamples;
     unsigned rearSampleIdx;
 
+    std::unique_lock<std::mutex> guard(mtx);
+
     inTs = inputFrame->getPresentationTime();
 
     if (!synchronized) {
@@ -125,6 +127,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
 
         if (paddingSamples >= chMaxSamples) {
             utils::warningMsg("[AudioCircularBuffer] Time discontinuity. Flushing buffer!");
+            guard.unlock();
             flush();
             return ret;
         }
@@ -140,8 +143,6 @@ std::vector<int> AudioCircularBuffer::addFrame()
         return ret;
     }
     
-    std::lock_guard<std::mutex> guard(mtx);
-    
     orgTime = inputFrame->getOriginTime();
     
     for (auto& r : connectionData.readers){
@@ -293,6 +294,8 @@ void AudioCircularBuffer::fillOutputBuffers(unsigned char **buffer, int bytesReq
 
 int AudioCircularBuffer::getFreeSamples()
 {
+    std::lock_guard<std::mutex> guard(mtx);
+
     int freeBytes = channelMaxLength - elements;
 
     if (freeBytes == 0) {
@@ -323,11 +326,15 @@ void AudioCircularBuffer::setOutputFrameSamples(int samples)
 
 unsigned AudioCircularBuffer::getElements() const
 {
+    std::lock_guard<std::mutex> guard(mtx);
+
     return elements/(outputFrame->getSamples()*bytesPerSample);
 }
 
 bool AudioCircularBuffer::isFull() const
 {
+    std::lock_guard<std::mutex> guard(mtx);
+
     return ((float) elements)/chMaxSamples >= FULL_THRESHOLD;
 }
 
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..89018df 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -123,7 +123,7 @@ private:
     std::chrono::system_clock::time_point orgTime;
 
     int tsDeviationThreshold;
-    std::mutex mtx;
+    mutable std::mutex mtx;
 
     unsigned elements;
 };
-- 
2.43.0


From 1e822fd7ddbdb9430284769d3a75ed448163ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 09/49] fix: take out of the task queue the task that was
 chosen, not its head

---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From c5834aabdde80c43babe94e051232ab39bc05e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 10/49] fix: a removed task is neither left queued nor touched
 by its worker afterwards

---
 src/WorkersPool.cpp | 15 ++++++++++++++-
 src/WorkersPool.hh  |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..18ab30a 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -46,6 +46,17 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    for (auto it = queue.begin(); it != queue.end(); ++it){
+        if (*it == run){
+            queue.erase(it);
+            break;
+        }
+    }
+    sQueue.erase(run);
+    resetIterator();
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -182,11 +193,13 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
-        guard.unlock();
+        queue.remove(runnable);
         qCheck.notify_one();
         while(runnable->isRunning()){
+            guard.unlock();
             utils::warningMsg("awaiting task to finish " + std::to_string(id));
             std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            guard.lock();
         }
         return true;
     }
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From b6d2f496c29ad457e57aec213d0b259e179179c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 11/49] fix: stop the workers under the pool's lock

---
 src/WorkersPool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 18ab30a..78645fa 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -64,6 +64,7 @@ void TaskQueue::resetIterator(){
 void TaskQueue::clear(){
     queue.clear();
     sQueue.clear();
+    resetIterator();
 }
 
 Runnable* TaskQueue::current(){
@@ -160,13 +161,16 @@ WorkersPool::~WorkersPool()
 
 void WorkersPool::stop()
 {
+    std::unique_lock<std::mutex> guard(mtx);
     run = false;
+    guard.unlock();
     qCheck.notify_all();
     for (std::thread &worker : workers){
         if (worker.joinable()){
             worker.join();
         }
     }
+    guard.lock();
     queue.clear();
 }
 
-- 
2.43.0


From 85b34570bd24fe08135669874ff7bb85485f6f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 12/49] fix: do not register a NULL reader when the filter
 refuses the connection

---
 src/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 56a0c69..572daed 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -130,7 +130,7 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
     std::shared_ptr<Reader> r (new Reader());
     
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
     readers[readerID] = r;
-- 
2.43.0


From a8d30e7c6344d0d823ce023890765832ad5ebcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:13 +0000
Subject: [PATCH 13/49] fix: free the queue of a connection that the reading
 filter refused

---
 src/Filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 572daed..0c973d8 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -361,6 +361,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 
     if (!(r = R->setReader(readerID, queue))) {
         deleteWriter(writerID);
+        delete queue;
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
-- 
2.43.0


From b42d6ed56d1b7813ee3afee457f860634dd46783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 14/49] fix: sharing a reader respects the input limit of the
 sharing filter

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 0c973d8..714e5ad 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -275,6 +275,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
     
     std::lock_guard<std::mutex> sharedGuard(shared->mtx);
     
+    if (shared->readers.count(sharedRId) <= 0 && shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter has no free reader!");
+        return false;
+    }
+    
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
         return false;
     }
-- 
2.43.0


From 30d46b2aaaf1cf2b17187ca8919c475611b05c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 15/49] fix: drop the source of a removed reader that no
 connection used

---
 src/modules/transmitter/SinkManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/transmitter/SinkManager.cpp b/src/modules/transmitter/SinkManager.cpp
index 58989f1..4eb75a5 100644
--- a/src/modules/transmitter/SinkManager.cpp
+++ b/src/modules/transmitter/SinkManager.cpp
@@ -121,7 +121,9 @@ bool SinkManager::readerInConnection(int rId)
 
 bool SinkManager::specificReaderDelete(int readerId)
 {
-    if (removeConnectionByReaderId(readerId) && sources.count(readerId) > 0 && replicators.count(readerId) > 0){
+    removeConnectionByReaderId(readerId);
+    
+    if (sources.count(readerId) > 0 && replicators.count(readerId) > 0){
         Medium::close(sources[readerId]);
         sources.erase(readerId);
         replicators.erase(readerId);
-- 
2.43.0


From 84301ba144e391e1bc41e1bf3c805e950705d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 16/49] fix: do not copy a slice that does not fit in the
 frames of the queue

---
 src/SlicedVideoFrameQueue.cpp | 8 +++++++-
 src/SlicedVideoFrameQueue.hh  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..304cf23 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -46,7 +46,7 @@ SlicedVideoFrameQueue* SlicedVideoFrameQueue::createNew(struct ConnectionData cD
 }
 
 SlicedVideoFrameQueue::SlicedVideoFrameQueue(struct ConnectionData cData, const StreamInfo *si,
-        unsigned maxFrames) : VideoFrameQueue(cData, si, maxFrames)
+        unsigned maxFrames) : VideoFrameQueue(cData, si, maxFrames), maxSliceSize(0), inputFrame(NULL)
 {
 }
 
@@ -109,6 +109,7 @@ void SlicedVideoFrameQueue::innerAddFrame()
 
 bool SlicedVideoFrameQueue::setup(unsigned maxSliceSize)
 {
+    this->maxSliceSize = maxSliceSize;
     inputFrame = SlicedVideoFrame::createNew(streamInfo->video.codec);
 
     if (!inputFrame) {
@@ -133,6 +134,11 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
 
     for (int i=0; i<sliceNum; i++) {
 
+        if (slices[i].getDataSize() > maxSliceSize) {
+            utils::errorMsg("Slice discarded: it does not fit in the frames of the queue");
+            continue;
+        }
+
         if ((frame = innerGetRear()) == NULL){
             frame = innerForceGetRear();
         }
diff --git a/src/SlicedVideoFrameQueue.hh b/src/SlicedVideoFrameQueue.hh
index 79803d1..cbb3687 100644
--- a/src/SlicedVideoFrameQueue.hh
+++ b/src/SlicedVideoFrameQueue.hh
@@ -73,6 +73,7 @@ private:
     void innerAddFrame();
     bool setup(unsigned maxSliceSize);
 
+    unsigned maxSliceSize;
     SlicedVideoFrame* inputFrame;
 
 };
-- 
2.43.0


From 3bc34cfbde6100d4168697a930a5fb7c0617d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 17/49] fix: do not append a picture to the slices of one that
 failed

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 3 +++
 src/modules/videoEncoder/VideoEncoderX265.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..77f19ab 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -67,6 +67,9 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
         return false;
     }
 
+    //NOTE: a previous picture that was not handed on may have left its slices here
+    slicedFrame->clear();
+
     if (forceIntra) {
         picIn.i_type = X264_TYPE_IDR;
         forceIntra = false;
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..3a9bb3c 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -71,6 +71,9 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
         return false;
     }
 
+    //NOTE: a previous picture that was not handed on may have left its slices here
+    slicedFrame->clear();
+
     if (forceIntra) {
         picIn->sliceType = X265_TYPE_IDR;
         forceIntra = false;
-- 
2.43.0


From f83946e02e33c6840387098df85ef1e5e728e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 18/49] fix: silence for an audio gap was read past the end of
 the silent frame

---
 src/AudioCircularBuffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index bd66622..2dc5bc7 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -58,6 +58,7 @@ AudioCircularBuffer::~AudioCircularBuffer()
         
         delete inputFrame;
         delete outputFrame;
+        delete dummyFrame;
     }
 }
 
@@ -208,7 +209,8 @@ bool AudioCircularBuffer::setup()
 
     inputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
     outputFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
-    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, AudioFrame::getMaxSamples(sampleRate), PCM, sampleFormat);
+    //NOTE: it is the source of the silence that fills a gap, which can be as long as chMaxSamples
+    dummyFrame = PlanarAudioFrame::createNew(channels, sampleRate, chMaxSamples, PCM, sampleFormat);
     dummyFrame->fillWithValue(0);
 
     outputFrame->setSamples(AudioFrame::getDefaultSamples(sampleRate));
-- 
2.43.0


From 805bb236a5818b7dc149ef8fd8f43920835b3d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 19/49] fix: audio positions and timestamps do not wrap after
 2^32 samples

---
 src/AudioCircularBuffer.cpp           | 4 ++--
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 src/modules/audioMixer/AudioMixer.hh  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 2dc5bc7..3aaa3d7 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -70,7 +70,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -101,7 +101,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds deviation;
     std::vector<int> ret;
     unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    size_t rearSampleIdx;
 
     std::unique_lock<std::mutex> guard(mtx);
 
diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..111ddf8 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -106,7 +106,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    size_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..c13af73 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -145,8 +145,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    size_t front;
+    size_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From ccaee826758696c30a018ba03142eef24fbb3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 20/49] fix: resynchronising the audio mixer forgets the
 samples it had mixed

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 111ddf8..68a81c3 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -138,6 +138,11 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        //NOTE: what was mixed for positions that are not going to be delivered must not be heard later
+        for (int i = 0; i < channels; i++) {
+            memset(mixBuffers[i], 0, mixBufferMaxSamples*sizeof(float));
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From 49ccc573b5fad4ea1c0d85d9198a0576218053d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 21/49] fix: a control event with parameters of the wrong type
 terminated the server

---
 src/Controller.cpp |  7 ++++++-
 src/Event.cpp      |  2 +-
 src/Filter.cpp     | 27 +++++++++++++++++++++------
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..eb333b7 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -172,7 +172,12 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
-        pipeMngrInstance->processEvent(*it, outputNode);
+        try {
+            pipeMngrInstance->processEvent(*it, outputNode);
+        } catch (const std::exception &ex) {
+            utils::errorMsg("Error processing event: " + std::string(ex.what()));
+            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+        }
     }
 
     sendAndClose(outputNode, connectionSocket);
diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..ca4954f 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -52,7 +52,7 @@ std::string Event::getAction()
 {
     std::string action;
 
-    if (inputRootNode->Has("action")) {
+    if (inputRootNode->Has("action") && inputRootNode->Get("action").IsValue()) {
         action = inputRootNode->Get("action").ToString();
     }
 
diff --git a/src/Filter.cpp b/src/Filter.cpp
index 714e5ad..16d6886 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -451,8 +451,13 @@ void BaseFilter::processEvent()
             continue;
         }
 
-        if (!eventMap[action](params)) {
-            utils::errorMsg("Error executing filter event");
+        try {
+            if (!eventMap[action](params)) {
+                utils::errorMsg("Error executing filter event");
+            }
+        } catch (const std::exception &ex) {
+            //NOTE: parameters may be of any type, the event is refused as any other wrong one
+            utils::errorMsg("Error executing filter event: " + std::string(ex.what()));
         }
         
         eventQueue.pop();
@@ -837,8 +842,13 @@ void HeadFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
+    try {
+        if (!eventMap[action](params)) {
+            utils::errorMsg("Error executing filter event");
+        }
+    } catch (const std::exception &ex) {
+        //NOTE: parameters may be of any type, the event is refused as any other wrong one
+        utils::errorMsg("Error executing filter event: " + std::string(ex.what()));
     }
 }
 
@@ -871,8 +881,13 @@ void TailFilter::pushEvent(Event e)
         return;
     }
 
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
+    try {
+        if (!eventMap[action](params)) {
+            utils::errorMsg("Error executing filter event");
+        }
+    } catch (const std::exception &ex) {
+        //NOTE: parameters may be of any type, the event is refused as any other wrong one
+        utils::errorMsg("Error executing filter event: " + std::string(ex.what()));
     }
 }
 
-- 
2.43.0


From 0adf71313279844a6e2882fdafc97bf17cd4d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 22/49] fix: the JSON parser went on with the tokens of a
 previous message that was wrong

---
 src/Jzon.cpp | 2628 +++++++++++++++++++++++++-------------------------
 1 file changed, 1316 insertions(+), 1312 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..924470c 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1313 +1,1317 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c0 = '\0';
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (c0 != '\\' && c1 == '"')
-			{
-				inString = !inString;
-			}
-
-			if (!inString)
-			{
-				if (c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-				continue;
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-					freshJson += c1;
-			}
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-
-		tokenize();
-		bool success = assemble();
-
-		return success;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					readString();
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
-
-		std::string name = "";
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
-					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = data.front().second;
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
-
-							delete node;
-							node = NULL;
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(std::make_pair(name, node));
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		return true;
-	}
-
-	void Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return;
-
-		std::string str;
-
-		++cursor;
-
-		char c1 = '\0';
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c2 = json.at(cursor);
-
-			if (c1 != '\\' && c2 == '"')
-			{
-				break;
-			}
-
-			str += c2;
-
-			c1 = c2;
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(char c) const
-	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
-	}
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c0 = '\0';
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it != json.begin())
+				c0 = (*(it-1));
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (c0 != '\\' && c1 == '"')
+			{
+				inString = !inString;
+			}
+
+			if (!inString)
+			{
+				if (c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+				continue;
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+					freshJson += c1;
+			}
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				int val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+
+		// What a previous, wrong, text left behind is not part of this one
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+
+		tokenize();
+		bool success = assemble();
+
+		return success;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					readString();
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				tokens.push(token);
+			}
+		}
+	}
+	bool Parser::assemble()
+	{
+		std::stack<std::pair<std::string, Node*> > nodeStack;
+
+		std::string name = "";
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					std::string name = nodeStack.top().first;
+					Node *node = nodeStack.top().second;
+					nodeStack.pop();
+
+					if (!nodeStack.empty())
+					{
+						if (nodeStack.top().second->IsObject())
+						{
+							nodeStack.top().second->AsObject().Add(name, *node);
+						}
+						else if (nodeStack.top().second->IsArray())
+						{
+							nodeStack.top().second->AsArray().Add(*node);
+						}
+						else
+						{
+							error = "Can only add elements to objects and arrays";
+							return false;
+						}
+
+						delete node;
+						node = NULL;
+					}
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = data.front().second;
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (nodeStack.top().second->IsObject())
+								nodeStack.top().second->AsObject().Add(name, *node);
+							else if (nodeStack.top().second->IsArray())
+								nodeStack.top().second->AsArray().Add(*node);
+
+							delete node;
+							node = NULL;
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(std::make_pair(name, node));
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		return true;
+	}
+
+	void Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return;
+
+		std::string str;
+
+		++cursor;
+
+		char c1 = '\0';
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c2 = json.at(cursor);
+
+			if (c1 != '\\' && c2 == '"')
+			{
+				break;
+			}
+
+			str += c2;
+
+			c1 = c2;
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			bool number = true;
+			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+			{
+				if (!isNumber(*it))
+				{
+					number = false;
+					break;
+				}
+			}
+
+			if (number)
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(char c) const
+	{
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+	}
 }
\ No newline at end of file
-- 
2.43.0


From d2ffc234209aec834ec965b56353b80f14a387fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:52 +0000
Subject: [PATCH 23/49] fix: control events without parameters were
 dereferenced

---
 src/modules/V4LCapture/V4LCapture.cpp            | 5 +++++
 src/modules/receiver/SourceManager.cpp           | 4 ++++
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index d5c2c2c..7f4dfeb 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -552,6 +552,11 @@ void V4LCapture::doGetState(Jzon::Object &filterNode)
 bool V4LCapture::configureEvent(Jzon::Node* params)
 {
     utils::infoMsg("V4LCapture configure event");
+
+    if (!params) {
+        return false;
+    }
+
     if (!params->Has("device") || !params->Has("width") ||
         !params->Has("height") || !params->Has("fps")) {
         return false;
diff --git a/src/modules/receiver/SourceManager.cpp b/src/modules/receiver/SourceManager.cpp
index f328575..98f6f46 100644
--- a/src/modules/receiver/SourceManager.cpp
+++ b/src/modules/receiver/SourceManager.cpp
@@ -281,6 +281,10 @@ bool SourceManager::removeSessionEvent(Jzon::Node* params)
 {
     std::string sessionId;
     
+    if (!params) {
+        return false;
+    }
+
     if (params->Has("id")) {
         sessionId = params->Get("id").ToString();
         return removeSession(sessionId);
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..a2722fb 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -241,6 +241,10 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
+    if (!params) {
+        return false;
+    }
+
     if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
         refTime = std::chrono::microseconds(std::stoull(refTime_str));
-- 
2.43.0


From cca72170d1e4fb238e9adbc180dce993e96fc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 24/49] fix: a refused resampler configuration left the filter
 half configured

---
 src/modules/videoResampler/VideoResampler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..d314909 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -160,6 +160,11 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    //NOTE: a refused configuration changes nothing
+    if (getLibavPixFmt(pixelFormat) == AV_PIX_FMT_NONE){
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
@@ -173,10 +178,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
-- 
2.43.0


From 923d2bd6edf60e803defefc28099f3387de248da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 25/49] fix: initialise the DASH contexts' default sample
 duration

---
 src/modules/dasher/i2libdash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..935a752 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -53,6 +53,7 @@ void audio_context_initializer(i2ctx **context) {
     ctxAudio->channels = 0;
     ctxAudio->sample_rate = 0;
     ctxAudio->sample_size = 0;
+    ctxAudio->sample_duration = 0;
     ctxAudio->time_base = 0;
     ctxAudio->sequence_number = 0;
     ctxAudio->earliest_presentation_time = 0;
@@ -80,6 +81,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
     ctxVideo->height = 0;
+    ctxVideo->sample_duration = 0;
     ctxVideo->time_base = 0;
     ctxVideo->earliest_presentation_time = 0;
     ctxVideo->sequence_number = 0;
-- 
2.43.0


From 202c11f0b4deadceba785de59f429ed2a3fe621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:47 +0000
Subject: [PATCH 26/49] fix: refuse DASH samples that do not fit in the segment
 under construction

---
 src/modules/dasher/i2context.h |  3 +++
 src/modules/dasher/i2libdash.c | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..0d7d2d8 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -32,8 +32,11 @@ typedef unsigned char byte;
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
 #define MAX_DAT 10*1024*1024 
+#define MAX_SEGMENT_HEADER 512   //segment boxes, sample table entries and data apart
+#define SAMPLE_TABLE_ENTRY 16
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_BUFFER_FULL 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 935a752..fc695ba 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -33,6 +33,20 @@ void video_context_initializer(i2ctx **context, uint32_t media_type);
 
 void video_sample_context_initializer(i2ctx_video **ctxVideo);
 
+// checks whether a sample of the given length fits in the segment under construction and the resulting segment in a MAX_DAT buffer
+static uint8_t sample_fits(uint32_t samples, uint32_t data_size, uint32_t sample_size)
+{
+    uint64_t total;
+
+    if (samples >= MAX_MDAT_SAMPLE) {
+        return FALSE;
+    }
+
+    total = (uint64_t)data_size + sample_size + ((uint64_t)samples + 1)*SAMPLE_TABLE_ENTRY + MAX_SEGMENT_HEADER;
+
+    return total <= MAX_DAT ? TRUE : FALSE;
+}
+
 uint8_t is_key_frame(byte *input_data, uint32_t size_input);
 
 void set_segment_duration(uint32_t segment_duration, i2ctx **context)
@@ -437,6 +451,10 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (sample_fits(ctxSample->mdat_sample_length, (*context)->ctxvideo->segment_data_size, input_data_length) != TRUE) {
+        return I2ERROR_BUFFER_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -484,6 +502,10 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
     
+    if (sample_fits(ctxSample->mdat_sample_length, (*context)->ctxaudio->segment_data_size, input_data_length) != TRUE) {
+        return I2ERROR_BUFFER_FULL;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From c88800b925106f1f70373ffdead1b160ed7668ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 27/49] fix: audio segment times wrapped at 32 bits

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..439ae89 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
-- 
2.43.0


From 4a416b7af70e097755eb34db8e07ad6b10b84304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 28/49] fix: audio frames shorter than their ADTS header were
 appended with a wrapped length

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 439ae89..e38a1da 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -134,7 +134,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned int addSampleReturn;
     uint64_t timeBasePts;
 
-    if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
+    if (!frame || !frame->getDataBuf() || frame->getLength() <= ADTS_HEADER_LENGTH || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
         return false;
     }
-- 
2.43.0


From a8a2869361de3df7566a8c6db593819d7f8319ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 29/49] fix: error codes of the init segment generators were
 taken for lengths

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 src/modules/dasher/DashVideoSegmenter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index e38a1da..73f5a62 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -104,7 +104,7 @@ bool DashAudioSegmenter::generateInitSegment(DashSegment* segment)
 
     initSize = init_audio_handler(data, dataLength, segment->getDataBuffer(), &dashContext);
 
-    if (initSize == 0) {
+    if (initSize <= I2ERROR_MAX) {
         return false;
     }
 
diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..1417e3e 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -106,7 +106,7 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
 
     initSize = new_init_video_handler(data, dataLength, segment->getDataBuffer(), &dashContext);
 
-    if (initSize < I2ERROR_MAX) {
+    if (initSize <= I2ERROR_MAX) {
         return false;
     }
 
-- 
2.43.0


From 17676624bdde0462a0aae67e0a45fd7daac12575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 30/49] fix: a finished DASH segment was overwritten before it
 was written

---
 src/modules/dasher/Dasher.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..b28cf28 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -352,11 +352,12 @@ bool Dasher::forceAudioSegmentsGeneration()
 {
     DashSegmenter* segmenter;
     DashAudioSegmenter* aSeg;
+    bool success = true;
 
     for (auto seg : aSegments) {
         segmenter = getSegmenter(seg.first);
 
-        if (!segmenter) {
+        if (!segmenter || seg.second->isComplete()) {
             continue;
         }
 
@@ -368,7 +369,8 @@ bool Dasher::forceAudioSegmentsGeneration()
 
         if (!aSeg->generateSegment(seg.second, NULL, true)) {
             utils::errorMsg("Error forcing audio segment generation");
-            return false;
+            success = false;
+            continue;
         }
 
         mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[seg.first]->getTimeBase(), aSegTempl, aInitSegTempl);
@@ -376,7 +378,7 @@ bool Dasher::forceAudioSegmentsGeneration()
                                             aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
     }
 
-    return true;
+    return success;
 }
 
 bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
@@ -652,6 +654,11 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
         return false;
     }
 
+    //The finished segment has not been written yet, samples are kept for the next one
+    if (segment->isComplete()) {
+        return false;
+    }
+
     if (frame) {
         frameTs = frame->getPresentationTime();
     }
-- 
2.43.0


From 21f736612fd6c390437335b293e5b874c4ed5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 31/49] fix: a segment that could not be written completely was
 announced in the MPD

---
 src/modules/dasher/Dasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index b28cf28..53dedef 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -727,7 +727,7 @@ bool DashSegment::writeToDisk(std::string path)
 
     file.write((char*)data, dataLength);
     file.close();
-    return true;
+    return file.good();
 }
 
 void DashSegment::setTimestamp(uint64_t ts)
-- 
2.43.0


From b9191703a6092222890977d95cdfe4a48885db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 32/49] fix: a failing write dropped the segments of the
 representations written before it

---
 src/modules/dasher/Dasher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 53dedef..e318a88 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -389,7 +389,9 @@ bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t t
             utils::errorMsg("Error writing DASH segment to disk: invalid path");
             return false;
         }
+    }
 
+    for (auto seg : segments) {
         seg.second->clear();
         seg.second->incrSeqNumber();
     }
-- 
2.43.0


From e144a5ae24e7ae4d97fd16839741d74737947dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 33/49] fix: Dasher::generateSegment read an uninitialised
 pointer for audio next to video

---
 src/modules/dasher/Dasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index e318a88..2f476e5 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -210,7 +210,7 @@ bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
 bool Dasher::generateSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter)
 {
     DashVideoSegmenter* vSeg;
-    DashAudioSegmenter* aSeg;
+    DashAudioSegmenter* aSeg = NULL;
 
     if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
 
-- 
2.43.0


From 2b7a508d9419de017197918f1fc249f18f96b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:04 +0000
Subject: [PATCH 34/49] fix: files of DASH segments dropped from the manifest
 were left behind when their time is 0 or several were dropped

---
 src/modules/dasher/Dasher.cpp     | 20 ++++++++++++--------
 src/modules/dasher/MpdManager.cpp | 18 +++++++++---------
 src/modules/dasher/MpdManager.hh  |  7 ++++---
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 2f476e5..8876484 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -246,7 +246,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,12 +284,14 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(vSegments, rmTimestamp, V_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
@@ -311,7 +313,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,12 +339,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
+    rmTimestamps = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
 
     mpdMngr->writeToDisk(mpdPath.c_str());
 
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
+    for (auto rmTimestamp : rmTimestamps) {
+        if (!cleanSegments(aSegments, rmTimestamp, A_EXT)) {
+            utils::warningMsg("Error cleaning dash video segments");
+        }
     }
 
     return true;
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..1fdc65e 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -113,19 +113,19 @@ void MpdManager::writeToDisk(const char* fileName)
     doc.SaveFile(fileName);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+std::vector<uint64_t> MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
 {
     AdaptationSet* adSet;
-    uint64_t removedTimestamp;
+    std::vector<uint64_t> removedTimestamps;
 
     adSet = getAdaptationSet(id);
 
     if (!adSet) {
-        return 0;
+        return removedTimestamps;
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
-    return removedTimestamp;
+    removedTimestamps = adSet->updateTimestamp(ts, duration, maxSeg);
+    return removedTimestamps;
 }
 
 bool MpdManager::flushAdaptationSetTimestamps(std::string id)
@@ -238,17 +238,17 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+std::vector<uint64_t> AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
 {
-    uint64_t removedTimestamp= 0;
+    std::vector<uint64_t> removedTimestamps;
 
     while (timestamps.size() >= maxSeg) {
-        removedTimestamp = timestamps.front().first;
+        removedTimestamps.push_back(timestamps.front().first);
         timestamps.pop_front();
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
-    return removedTimestamp;
+    return removedTimestamps;
 }
 
 void AdaptationSet::flushTimestamps()
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..8f19b1f 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,7 @@
 
 #include <map>
 #include <deque>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -105,9 +106,9 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @return Timestamps removed from the list, oldest first
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    std::vector<uint64_t> updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -213,7 +214,7 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    std::vector<uint64_t> updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 2e02684d7088114bc000f2106f6f90fd1d455e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 35/49] fix: a suffix SEI does not make an HEVC key picture a
 non-key picture

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..e5f34c6 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -100,9 +100,9 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From faf734c0efb99de0a1d72098e5bacc4076e36473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:17 +0000
Subject: [PATCH 36/49] fix: take all three bits of the channel configuration
 from the ADTS header

---
 src/modules/dasher/DashAudioSegmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 73f5a62..b13b18c 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
-- 
2.43.0


From 3af2fa7067fc6498a63c94e7478c84939c1d57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 37/49] fix: channels of the frontmost layer of the VideoMixer
 were never drawn

Layers go from 0 to maxChannels, both included, as documented and as
configChannel0 accepts them; the frontmost one was skipped.
---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From 4aab9797f37be3dc4974a3123c8138bd2509e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 38/49] fix: VideoMixer channels outside of the documented
 range (0,1] were accepted

They were scaled to any size: memory for it was allocated on every frame.
---
 src/modules/videoMixer/VideoMixer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..c5b7c24 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,8 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (x < 0 || x > 1 || y < 0 || y > 1 || width <= 0 || width > 1 || 
+            height <= 0 || height > 1 || opacity < 0 || opacity > 1.0) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
-- 
2.43.0


From 276e7443dceab67ee77851bfa4ea2e69769f42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 39/49] fix: the VideoMixer aborted on channels of which
 nothing is visible

Scaling to a size of 0 and taking a region outside of the layout throw.
---
 src/modules/videoMixer/VideoMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index c5b7c24..0eb8c4d 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -217,6 +217,11 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    //NOTE: channels of less than a pixel or at the very edge of the layout show nothing
+    if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 1928fc483236c9ba65b5a77e09f1e92a123f1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:37 +0000
Subject: [PATCH 40/49] fix: VideoSplitter crops could be written behind the
 memory of their frame

Crops of any size were accepted (their image is allocated at once, which
aborts when it is too large), the sum of position and size could overflow
and the crop was never compared with the capacity of the output frame.
---
 src/modules/videoSplitter/VideoSplitter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..bd3e85b 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -142,8 +142,11 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
-			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
+		vFrameDst = dynamic_cast<VideoFrame*>(it.second);
+
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && 
+				widthROI <= vFrame->getWidth() - xROI && heightROI <= vFrame->getHeight() - yROI &&
+				(unsigned int)(widthROI * heightROI * 3) <= vFrameDst->getMaxLength()){
 			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
@@ -196,6 +199,11 @@ bool VideoSplitter::configCrop0(int id, int width, int height, int x, int y, int
         return false;
     }
 
+    if (width > DEFAULT_WIDTH*DEFAULT_HEIGHT/height) {
+        utils::errorMsg("[VideoSplitter] Error configuring crop. It does not fit in a frame");
+        return false;
+    }
+
     cropsConfig[id]->config(width, height, x, y, degree);
     return true;
 }
-- 
2.43.0


From 12299f1cc02e42a5a3c71450b1bbbb6f43a63d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:37 +0000
Subject: [PATCH 41/49] fix: VideoResampler wrote images behind the memory of
 their frame

The size of the output is whatever was configured; it was never compared
with the capacity of the output frame. The pixel formats it compares and
translates were not initialised either.
---
 src/modules/videoResampler/VideoResampler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index d314909..7d03f01 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,8 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    outPixFmt = RGB24;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
@@ -132,7 +134,14 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    int length = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+
+    if (length < 0 || (unsigned int) length > dstFrame->getMaxLength()) {
+        utils::errorMsg("Converted image does not fit in its frame");
+        return false;
+    }
+
+    dstFrame->setLength(length);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
-- 
2.43.0


From 9241d59f2a75dbf2d436e335458e1a987be47508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 42/49] fix: SharedMemory copied frames of any kind and length
 into its output frame

Frames that are not interleaved were dereferenced as NULL, longer ones were
written behind the memory of the output frame.
---
 src/modules/sharedMemory/SharedMemory.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..87f75a6 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -113,7 +113,19 @@ SharedMemory::~SharedMemory()
 bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
 {
     InterleavedVideoFrame* vframe = dynamic_cast<InterleavedVideoFrame*>(org);
-    copyOrgToDstFrame(vframe,dynamic_cast<InterleavedVideoFrame*>(dst));
+    InterleavedVideoFrame* dstFrame = dynamic_cast<InterleavedVideoFrame*>(dst);
+
+    if (!vframe || !dstFrame) {
+        utils::errorMsg("SharedMemory::error - only interleaved video frames are shareable");
+        return false;
+    }
+
+    if (vframe->getLength() > dstFrame->getMaxLength()) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the output frame");
+        return false;
+    }
+
+    copyOrgToDstFrame(vframe, dstFrame);
 
     if(!isWritable()){
         if(vframe->getCodec() == H264){
-- 
2.43.0


From f4b7b9189589c542ed79b630708c0c2caac34b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 43/49] fix: SharedMemory wrote frames of any size into the
 segment

Raw frames of four bytes per pixel and long coded pictures were written
behind its end.
---
 src/modules/sharedMemory/SharedMemory.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 87f75a6..16e9028 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -210,6 +210,11 @@ void SharedMemory::writeSharedMemoryH264()
         return;
     }
 
+    if (dataLength > SHMSIZE - HEADER_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+        return;
+    }
+
     *access = CHAR_WRITING;
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
@@ -300,6 +305,10 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
 
 int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 {
+    if (buf_size < 0 || buf_size > SHMSIZE - HEADER_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+        return -1;
+    }
 
     *access = CHAR_WRITING;
     memcpy(buffer, buf, sizeof(uint8_t) * buf_size);
-- 
2.43.0


From fd77b4cfd28c1ad01566cc294857870c8e8d8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 44/49] fix: SharedMemory aborted on NAL units shorter than
 their start code

The range inserted in the picture ended before it began.
---
 src/modules/sharedMemory/SharedMemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index 16e9028..71c5958 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -238,7 +238,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
-- 
2.43.0


From f58341e9d3a6823c0eb0a7b37cd4e1d6a8a03588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 45/49] fix: AudioMixer read samples of other formats than its
 own with its own sample size

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 68a81c3..bf6ba43 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -110,8 +110,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
-    bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
+    bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-- 
2.43.0


From 7ae25f936c16ded717e25108e174ae3ecf396d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:57 +0000
Subject: [PATCH 46/49] fix: AudioMixer accepted master gains outside of [0, 1]

---
 src/modules/audioMixer/AudioMixer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index bf6ba43..7f61122 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -389,7 +389,14 @@ bool AudioMixer::changeMasterVolumeEvent(Jzon::Node* params)
     }
 
     gain = params->Get("gain").ToFloat();
-    masterGain = gain;
+
+    if (gain > 1) {
+        masterGain = 1;
+    } else if (gain < 0) {
+        masterGain = 0;
+    } else {
+        masterGain = gain;
+    }
 
     return true;
 }
-- 
2.43.0


From cb5b8b74045ff5d1a3f182cbd9ac8966fb8d24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:01 +0000
Subject: [PATCH 47/49] fix: AudioMixer::floatToBytes turned full scale into
 its opposite

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 7f61122..ec3989c 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -255,7 +255,7 @@ bool AudioMixer::floatToBytes(unsigned char* dst, float const origin, SampleFmt
 
     switch(fmt) {
         case S16P:
-            value = origin * 32768.0;
+            value = origin < 1 ? origin * 32768.0 : 32767;
             *dst = value & 0xFF; 
             *(dst+1) = (value >> 8) & 0xFF;
             break;
-- 
2.43.0


From 2a97736d50f81992a3aa12a5444caa528ad63861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:41 +0000
Subject: [PATCH 48/49] fix: video encoders lost a forced intra frame when
 encoding failed

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 77f19ab..6dd6724 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -72,7 +72,6 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
 
     if (forceIntra) {
         picIn.i_type = X264_TYPE_IDR;
-        forceIntra = false;
     } else {
         picIn.i_type = X264_TYPE_AUTO;
     }
@@ -86,6 +85,7 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
     }
     
     inPts++;
+    forceIntra = false;
     
     if (success == 0) {
         return false;
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 3a9bb3c..1c5b566 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -76,7 +76,6 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
 
     if (forceIntra) {
         picIn->sliceType = X265_TYPE_IDR;
-        forceIntra = false;
     } else {
         picIn->sliceType = X265_TYPE_AUTO;
     }
@@ -90,6 +89,7 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
     } 
     
     inPts++;
+    forceIntra = false;
     
     if (success == 0) {
         utils::debugMsg("X265 Encoder: NAL not retrieved after encoding");
-- 
2.43.0


From 9afbcd03c10f3ce483dd63f49fd06862ff3bcb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:41 +0000
Subject: [PATCH 49/49] fix: VideoEncoderX264or5::configEvent paced an unpaced
 encoder at the default framerate

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index a2722fb..0986e59 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -184,7 +184,8 @@ bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
     }
 
     tmpBitrate = bitrate;
-    tmpFps = fps;
+    //NOTE: without a frame time there is no configured framerate to keep
+    tmpFps = getFrameTime().count() > 0 ? fps : 0;
     tmpGop = gop;
     tmpGopTime = gopTime;
     tmpLookahead = lookahead;
-- 
2.43.0

