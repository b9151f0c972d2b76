From e01087d919a6bc2363bf60bbbba24a3283a3ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 01/20] fix: forget blocks awaiting tag verification when a
 receiver thread is reset

A thread that ended a session with an error kept the unverified blocks of
that session; in the next session the first verified tag counted them as
received.
---
 ReceiverThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..0cb181e 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1051,6 +1051,7 @@ ErrorCode ReceiverThread::init() {
 
 void ReceiverThread::reset() {
   numRead_ = off_ = 0;
+  blocksWaitingVerification_.clear();
   checkpointIndex_ = pendingCheckpointIndex_ = 0;
   senderReadTimeout_ = senderWriteTimeout_ = -1;
   curConnectionVerified_ = false;
-- 
2.43.0


From 15b083315bc3d74582ade9c9d5d320865a56f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 02/20] fix: report failed OpenSSL GCM setup and tag calls
 instead of ignoring them

---
 util/EncryptionUtils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..77b33e9 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -266,10 +266,12 @@ bool AESEncryptor::start(const EncryptionParams& encryptionData,
     if (EVP_EncryptInit_ex(evpCtx_.get(), cipher, nullptr, nullptr, nullptr) !=
         1) {
       WLOG(ERROR) << "GCM First init error";
+      return false;
     }
     if (EVP_CIPHER_CTX_ctrl(evpCtx_.get(), EVP_CTRL_GCM_SET_IVLEN, ivOut.size(),
                             nullptr) != 1) {
       WLOG(ERROR) << "Encrypt Init ivlen set failed";
+      return false;
     }
   }
 
@@ -315,6 +317,7 @@ bool AESEncryptor::finishInternal(EVP_CIPHER_CTX* ctx,
       WLOG(ERROR) << "EncryptFinal Tag extraction error "
                   << folly::humanify(tagOut);
       tagOut.clear();
+      return false;
     }
   }
   return true;
@@ -383,10 +386,12 @@ bool AESDecryptor::start(const EncryptionParams& encryptionData,
     if (EVP_EncryptInit_ex(evpCtx_.get(), cipher, nullptr, nullptr, nullptr) !=
         1) {
       WLOG(ERROR) << "GCM Decryptor First init error";
+      return false;
     }
     if (EVP_CIPHER_CTX_ctrl(evpCtx_.get(), EVP_CTRL_GCM_SET_IVLEN, iv.size(),
                             nullptr) != 1) {
       WLOG(ERROR) << "Encrypt Init ivlen set failed";
+      return false;
     }
   }
 
@@ -439,6 +444,7 @@ bool AESDecryptor::finishInternal(EVP_CIPHER_CTX* ctx,
     status = EVP_CIPHER_CTX_ctrl(ctx, EVP_CTRL_GCM_SET_TAG, tag.size(), tagBuf);
     if (status != 1) {
       WLOG(ERROR) << "Decrypt final tag set error " << folly::humanify(tag);
+      return false;
     }
   }
 
-- 
2.43.0


From 9eca16841b6f050f4d0e956e2272bab7889546fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/20] fix: take the lock for the remaining unlocked accesses
 to shared counters

---
 Throttler.cpp                 | 3 ++-
 Throttler.h                   | 2 +-
 WdtResourceController.cpp     | 3 ++-
 util/DirectorySourceQueue.cpp | 1 +
 util/ThreadTransferHistory.h  | 3 ++-
 5 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index dc4fcd2..48fa14f 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -121,7 +121,7 @@ void Throttler::limitSingleRequest(ThreadCtx* threadCtx,
   WDT_CHECK_LE(deltaProgress, singleRequestLimit_);
   std::chrono::time_point<Clock> now = Clock::now();
   double sleepTimeSeconds = calculateSleep(deltaProgress, now);
-  if (throttlerLogTimeMillis_ > 0) {
+  if (getThrottlerLogTimeMillis() > 0) {
     printPeriodicLogs(now, deltaProgress);
   }
   if (sleepTimeSeconds <= 0) {
@@ -278,6 +278,7 @@ void Throttler::setThrottlerLogTimeMillis(int64_t throttlerLogTimeMillis) {
 }
 
 std::ostream& operator<<(std::ostream& stream, const Throttler& throttler) {
+  std::unique_lock lock(throttler.throttlerMutex_);
   stream << "avgRate: " << throttler.avgRatePerSec_
          << ", peakRate: " << throttler.bucketRatePerSec_
          << ", bucketLimit: " << throttler.tokenBucketLimit_
diff --git a/Throttler.h b/Throttler.h
index d0f35a3..da11e5b 100644
--- a/Throttler.h
+++ b/Throttler.h
@@ -188,7 +188,7 @@ class Throttler {
   /// Number of tokens in the bucket
   int64_t tokenBucket_;
   /// Controls the access across threads
-  folly::SpinLock throttlerMutex_;
+  mutable folly::SpinLock throttlerMutex_;
   /// Number of users of this throttler
   int64_t refCount_{0};
   /// The average rate expected
diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..27a28f1 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -305,9 +305,9 @@ WdtResourceController* WdtResourceController::get() {
 }
 
 void WdtResourceController::shutdown() {
+  GuardLock lock(controllerMutex_);
   WLOG(INFO) << "Shutting down the controller (" << numSenders_ << " senders "
              << numReceivers_ << " receivers)";
-  GuardLock lock(controllerMutex_);
   for (auto& namespaceController : namespaceMap_) {
     NamespaceControllerPtr controller = namespaceController.second;
     numSenders_ -= controller->releaseAllSenders();
@@ -710,6 +710,7 @@ WdtResourceController::getNamespaceController(
 }
 
 void WdtResourceController::requireRegistration(bool strict) {
+  GuardLock lock(controllerMutex_);
   strictRegistration_ = strict;
 }
 
diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..e6a4cc1 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -627,6 +627,7 @@ int64_t DirectorySourceQueue::getTotalSize() const {
 }
 
 int64_t DirectorySourceQueue::getPreviouslySentBytes() const {
+  std::lock_guard<std::mutex> lock(mutex_);
   return previouslySentBytes_;
 }
 
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..8a6fea9 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -69,6 +69,7 @@ class ThreadTransferHistory {
    * @return    number of sources acked by the receiver
    */
   int64_t getNumAcked() const {
+    std::lock_guard<std::mutex> lock(mutex_);
     return numAcknowledged_;
   }
 
@@ -128,7 +129,7 @@ class ThreadTransferHistory {
   /// whether the owner thread is still using this
   bool inUse_{true};
   /// Mutex used by history internally for synchronization
-  std::mutex mutex_;
+  mutable std::mutex mutex_;
   /// Condition variable to signify the history being in use
   std::condition_variable conditionInUse_;
 };
-- 
2.43.0


From 74cbed09417793aee6d0fe03464431cbed7fa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 04/20] fix: return unacked blocks even if the receiver's last
 checkpoint had partial bytes

---
 util/ThreadTransferHistory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..55bae64 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -130,6 +130,9 @@ void ThreadTransferHistory::returnUnackedSourcesToQueue() {
   std::unique_lock<std::mutex> lock(mutex_);
   Checkpoint checkpoint;
   checkpoint.numBlocks = numAcknowledged_;
+  // this is not a checkpoint of the receiver, so it must not be validated
+  // against the last one it sent
+  lastCheckpoint_.reset();
   setCheckpointAndReturnToQueue(checkpoint, false);
 }
 
-- 
2.43.0


From 936e80f17ad761e11d43638f98b04b2a0f48f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 05/20] fix: refuse checkpoints that count negative blocks or
 more bytes than the block has

---
 util/ThreadTransferHistory.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 55bae64..a5117e8 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -75,6 +75,10 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
         << history_.size() << " " << numReceivedSources;
     return INVALID_CHECKPOINT;
   }
+  if (numReceivedSources < 0 || lastBlockReceivedBytes < 0) {
+    WLOG(ERROR) << "checkpoint has negative fields " << checkpoint;
+    return INVALID_CHECKPOINT;
+  }
   ErrorCode errCode = validateCheckpoint(checkpoint, globalCheckpoint);
   if (errCode == INVALID_CHECKPOINT) {
     return INVALID_CHECKPOINT;
@@ -205,6 +209,12 @@ void ThreadTransferHistory::markSourceAsFailed(
       validCheckpoint = true;
     }
   }
+  if (validCheckpoint &&
+      checkpoint->lastBlockReceivedBytes > source->getSize()) {
+    WLOG(WARNING) << "Checkpoint has more bytes than the block, ignoring. "
+                  << *checkpoint << " History: " << source->getSize();
+    validCheckpoint = false;
+  }
   int64_t receivedBytes =
       (validCheckpoint ? checkpoint->lastBlockReceivedBytes : 0);
   TransferStats& sourceStats = source->getTransferStats();
-- 
2.43.0


From bc2c269555a279756be0ae38d81c08ccd2ee4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 06/20] fix: refuse file names from the sender that are not
 below the root directory

---
 ReceiverThread.cpp   |  6 ++++++
 util/FileCreator.cpp | 18 ++++++++++++++++++
 util/FileCreator.h   | 11 +++++++++++
 3 files changed, 35 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 0cb181e..1d67fc1 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -460,6 +460,12 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  if (!FileCreator::isSafeRelativePath(blockDetails.fileName)) {
+    WTLOG(ERROR) << "Invalid file header, bad file name "
+                 << blockDetails.fileName;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
diff --git a/util/FileCreator.cpp b/util/FileCreator.cpp
index 36262e3..0479477 100644
--- a/util/FileCreator.cpp
+++ b/util/FileCreator.cpp
@@ -334,6 +334,24 @@ bool FileCreator::createDirRecursively(const std::string dir, bool force) {
   return true;
 }
 
+/* static */
+bool FileCreator::isSafeRelativePath(const std::string& relPath) {
+  if (relPath.empty() || relPath.front() == '/' || relPath.back() == '/') {
+    return false;
+  }
+  size_t start = 0;
+  while (true) {
+    const size_t end = relPath.find('/', start);
+    if (relPath.compare(start, end - start, "..") == 0) {
+      return false;
+    }
+    if (end == std::string::npos) {
+      return true;
+    }
+    start = end + 1;
+  }
+}
+
 std::string FileCreator::getFullPath(const std::string& relPath) {
   return (rootDir_ + relPath);
 }
diff --git a/util/FileCreator.h b/util/FileCreator.h
index 83b59ca..576a4ea 100644
--- a/util/FileCreator.h
+++ b/util/FileCreator.h
@@ -52,6 +52,17 @@ class FileCreator {
     threadConditionVariables_ = new std::condition_variable[numThreads];
   }
 
+  /**
+   * File names come from the other side. This tells whether a name stays below
+   * the root directory and can be opened or created
+   *
+   * @param relPath   path relative to root directory
+   *
+   * @return          true if path is not empty, does not start or end with a
+   *                  slash and has no ".." component
+   */
+  static bool isSafeRelativePath(const std::string& relPath);
+
   virtual ~FileCreator() {
     delete[] threadConditionVariables_;
   }
-- 
2.43.0


From 3cbb6ecdaee010921d95b57f85e18d9e157853f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 07/20] fix: bound the length of file chunks sent by the
 receiver

---
 SenderThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..5048a35 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -591,6 +591,12 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
+    if (toRead < 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Invalid length of file chunks " << toRead
+                   << " buffer length " << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From f33ac7a00c5d92cc20b73fa0bce2965be77f2b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 08/20] fix: refuse a negative length of global checkpoints

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 5048a35..a7fe94b 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -808,6 +808,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Invalid length of checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From adb86cc4b1b1c75bb413450a642797983f0fb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 09/20] fix: read the rest of a long header right after its
 first part

---
 ReceiverThread.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 1d67fc1..b5035c9 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -429,9 +429,8 @@ ReceiverState ReceiverThread::processFileCmd() {
   sendHeartBeat();
 
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
-    numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From 0c404d8e13c06c8ef101b8e285d93307aa883840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 10/20] fix: decode settings only from the bytes received

---
 ReceiverThread.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index b5035c9..d0bd36e 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -325,8 +325,7 @@ ReceiverState ReceiverThread::processSettingsCmd() {
   }
 
   success = Protocol::decodeSettings(
-      threadProtocolVersion_, buf_, off_,
-      oldOffset_ + Protocol::kMaxVersion + Protocol::kMaxSettings, settings);
+      threadProtocolVersion_, buf_, off_, oldOffset_ + numRead_, settings);
   if (!success) {
     WTLOG(ERROR) << "Unable to decode settings cmd ";
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From 388259ba35ff6bae6f0ece16eb01e84b1510c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 11/20] fix: process commands only from a sender whose transfer
 id was verified

---
 ReceiverThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index d0bd36e..8859bb1 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -267,6 +267,12 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (!curConnectionVerified_ && cmd != Protocol::SETTINGS_CMD) {
+    WTLOG(ERROR) << "received cmd " << cmd
+                 << " from a sender that did not send its settings first";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
-- 
2.43.0


From 7047252aef3cd39b627fa12ecf8e60070f929aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 12/20] fix: release sender or receiver that could not be
 initialized

---
 Wdt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Wdt.cpp b/Wdt.cpp
index 0def6b7..8b833d9 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -122,6 +122,7 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
+    releaseWdtSender(req);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
@@ -159,6 +160,7 @@ ErrorCode Wdt::wdtReceiveStart(const std::string& wdtNamespace,
   if (req.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init receiver with request for " << wdtNamespace
                 << " " << identifier;
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
     return req.errorCode;
   }
   errCode = receiver->transferAsync();
-- 
2.43.0


From b27508cec6a93753e8f36f95fa0ee1568258b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 13/20] fix: do not write transfer log entries that could not
 be encoded, or sync a closed log

An encoder returns -1 when an entry does not fit. The entry was then written
with that length, and a failed write (-1) compared equal to it. A directory
invalidation that could not be written closed the log and then synced it,
which aborts.
---
 util/TransferLogManager.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..d150af4 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -458,12 +458,13 @@ void TransferLogManager::invalidateDirectory() {
   char buf[kMaxEntryLength];
   int64_t size =
       encoderDecoder_.encodeDirectoryInvalidationEntry(buf, sizeof(buf));
-  int64_t written = ::write(fd_, buf, size);
-  if (written != size) {
+  int64_t written = (size < 0) ? -1 : ::write(fd_, buf, size);
+  if (size < 0 || written != size) {
     WPLOG(ERROR)
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
   return;
@@ -479,8 +480,8 @@ void TransferLogManager::writeLogHeader() {
   char buf[kMaxEntryLength];
   int64_t size = encoderDecoder_.encodeLogHeader(
       buf, kMaxEntryLength, recoveryId_, senderIp_, config_);
-  int64_t written = ::write(fd_, buf, size);
-  if (written != size) {
+  int64_t written = (size < 0) ? -1 : ::write(fd_, buf, size);
+  if (size < 0 || written != size) {
     WPLOG(ERROR) << "Disk write error while writing log header " << written
                  << " " << size;
     closeLog();
@@ -502,6 +503,9 @@ void TransferLogManager::addFileCreationEntry(const string& fileName,
   char buf[kMaxEntryLength];
   int64_t size = encoderDecoder_.encodeFileCreationEntry(
       buf, sizeof(buf), fileName, seqId, fileSize);
+  if (size < 0) {
+    return;  // too long, the encoder has logged it
+  }
 
   std::lock_guard<std::mutex> lock(mutex_);
   entries_.emplace_back(buf, size);
@@ -517,6 +521,9 @@ void TransferLogManager::addBlockWriteEntry(int64_t seqId, int64_t offset,
   char buf[kMaxEntryLength];
   int64_t size = encoderDecoder_.encodeBlockWriteEntry(buf, sizeof(buf), seqId,
                                                        offset, blockSize);
+  if (size < 0) {
+    return;  // too long, the encoder has logged it
+  }
 
   std::lock_guard<std::mutex> lock(mutex_);
   entries_.emplace_back(buf, size);
@@ -530,6 +537,9 @@ void TransferLogManager::addFileResizeEntry(int64_t seqId, int64_t fileSize) {
   char buf[kMaxEntryLength];
   int64_t size =
       encoderDecoder_.encodeFileResizeEntry(buf, sizeof(buf), seqId, fileSize);
+  if (size < 0) {
+    return;  // too long, the encoder has logged it
+  }
 
   std::lock_guard<std::mutex> lock(mutex_);
   entries_.emplace_back(buf, size);
@@ -543,6 +553,9 @@ void TransferLogManager::addFileInvalidationEntry(int64_t seqId) {
   char buf[kMaxEntryLength];
   int64_t size =
       encoderDecoder_.encodeFileInvalidationEntry(buf, kMaxEntryLength, seqId);
+  if (size < 0) {
+    return;  // too long, the encoder has logged it
+  }
   std::lock_guard<std::mutex> lock(mutex_);
   entries_.emplace_back(buf, size);
 }
@@ -709,8 +722,8 @@ bool LogParser::writeFileInvalidationEntries(int fd,
   for (auto seqId : seqIds) {
     int64_t size =
         encoderDecoder_.encodeFileInvalidationEntry(buf, sizeof(buf), seqId);
-    int64_t written = ::write(fd, buf, size);
-    if (written != size) {
+    int64_t written = (size < 0) ? -1 : ::write(fd, buf, size);
+    if (size < 0 || written != size) {
       WPLOG(ERROR) << "Disk write error while writing invalidation entry to "
                       "transfer log "
                    << written << " " << size;
-- 
2.43.0


From 177da8cfdf82e92545f3e1b96b971f16718939e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 14/20] fix: determine the footer type again in every thread
 that takes over a negotiated version

---
 SenderThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index a7fe94b..418480c 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -944,6 +944,7 @@ SenderState SenderThread::processVersionMismatch() {
         }
         if (negotiationStatus == V_MISMATCH_RESOLVED) {
           threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+          setFooterType();
           threadStats_.setRemoteErrorCode(OK);
           return CONNECT;
         }
-- 
2.43.0


From 7efea2b15f6fc2d43c2a1cce3f651cd7fd316466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 15/20] fix: forget the sender's totals of the previous session
 when statistics are reset

---
 Reporting.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reporting.h b/Reporting.h
index 44cae92..1b20ff7 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -134,6 +134,7 @@ class TransferStats {
     effectiveHeaderBytes_ = effectiveDataBytes_ = 0;
     numFiles_ = numBlocks_ = 0;
     failedAttempts_ = 0;
+    numBlocksSend_ = totalSenderBytes_ = -1;
     localErrCode_ = remoteErrCode_ = OK;
   }
 
-- 
2.43.0


From 78e8e50fdf484592f7b68e5ffb0fd99112936482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 16/20] fix: reject transfer log block entries with negative or
 overflowing ranges

---
 util/TransferLogManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index d150af4..a37bf43 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -967,7 +967,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (offset < 0 || blockSize < 0 || blockSize > chunksInfo.getFileSize() ||
+      offset > chunksInfo.getFileSize() - blockSize) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From 4aab9b4075fd92e93c072098424a3393a81f5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:36 +0000
Subject: [PATCH 17/20] fix: a thread without a buffer still leaves the
 barriers and counts as ended

---
 ReceiverThread.cpp | 3 +--
 SenderThread.cpp   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 8859bb1..1631709 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -994,9 +994,8 @@ void ReceiverThread::start() {
   if (buf_ == nullptr) {
     WTLOG(ERROR) << "Unable to allocate buffer";
     threadStats_.setLocalErrorCode(MEMORY_ALLOCATION_ERROR);
-    return;
   }
-  ReceiverState state = LISTEN;
+  ReceiverState state = (buf_ == nullptr ? END : LISTEN);
   while (true) {
     ErrorCode abortCode = wdtParent_->getCurAbortCode();
     if (abortCode != OK) {
diff --git a/SenderThread.cpp b/SenderThread.cpp
index 418480c..170d103 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -969,13 +969,12 @@ void SenderThread::start() {
   if (buf_ == nullptr) {
     WTLOG(ERROR) << "Unable to allocate buffer";
     threadStats_.setLocalErrorCode(MEMORY_ALLOCATION_ERROR);
-    return;
   }
 
   setFooterType();
 
   controller_->executeAtStart([&]() { wdtParent_->startNewTransfer(); });
-  SenderState state = CONNECT;
+  SenderState state = (buf_ == nullptr ? END : CONNECT);
 
   while (state != END) {
     ErrorCode abortCode = getThreadAbortCode();
-- 
2.43.0


From 0717e76564dcbc06552597ed0e23b10d1b4f0da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 18/20] fix: a directory that cannot be read to its end counts
 as failed

readdir() errors only affected the result of explore(), which nobody looks at
when the queue is built asynchronously: the transfer was reported as complete
although files were missing. Failed directories are now also recorded under
the queue's lock, since sender threads look at them during discovery.
---
 util/DirectorySourceQueue.cpp | 9 ++++++++-
 util/DirectorySourceQueue.h   | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index e6a4cc1..2005170 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -280,7 +280,7 @@ bool DirectorySourceQueue::explore() {
     DIR* dirPtr = opendir(fullPath.c_str());
     if (!dirPtr) {
       WPLOG(ERROR) << "Error opening dir " << fullPath;
-      failedDirectories_.emplace_back(fullPath);
+      addFailedDirectory(fullPath);
       hasError = true;
       continue;
     }
@@ -298,6 +298,7 @@ bool DirectorySourceQueue::explore() {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
           // closedir always called
+          addFailedDirectory(fullPath);
           hasError = true;
         } else {
           WVLOG(2) << "Done with " << fullPath;
@@ -409,6 +410,12 @@ bool DirectorySourceQueue::explore() {
   return !hasError;
 }
 
+void DirectorySourceQueue::addFailedDirectory(const string& fullPath) {
+  // sender threads look at the failed directories while discovery is running
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedDirectories_.emplace_back(fullPath);
+}
+
 void DirectorySourceQueue::smartNotify(int32_t addedSource) {
   if (addedSource >= numClientThreads_) {
     conditionNotEmpty_.notify_all();
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..46143af 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -259,6 +259,9 @@ class DirectorySourceQueue : public SourceQueue {
    */
   bool explore();
 
+  /// Records a directory that could not be opened or read
+  void addFailedDirectory(const std::string& fullPath);
+
   /**
    * Stat the input files and populate queue
    * @return                true on success, false on error
@@ -385,7 +388,7 @@ class DirectorySourceQueue : public SourceQueue {
   /// Transfer stats for sources which are not transferred
   std::vector<TransferStats> failedSourceStats_;
 
-  /// directories which could not be opened
+  /// directories which could not be opened or read
   std::vector<std::string> failedDirectories_;
 
   /// Total number of files that have passed through the queue
-- 
2.43.0


From 27717955dad4ca275bb45443c599623f56de2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 19/20] fix: do not delete extra files when discovery was
 incomplete

An unreadable directory (or an abort) left files undiscovered, and the
receiver's copies of them were then deleted as extra files.
---
 util/DirectorySourceQueue.cpp | 7 +++++++
 util/DirectorySourceQueue.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 2005170..36af506 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -222,6 +222,7 @@ bool DirectorySourceQueue::buildQueueSynchronously() {
   {
     std::lock_guard<std::mutex> lock(mutex_);
     initFinished_ = true;
+    discoveryFailed_ = !res;
     enqueueFilesToBeDeleted();
     // TODO: comment why
     if (sourceQueue_.empty()) {
@@ -290,6 +291,7 @@ bool DirectorySourceQueue::explore() {
     struct dirent* dirEntryRes = nullptr;
     while (true) {
       if (threadCtx_->getAbortChecker()->shouldAbort()) {
+        hasError = true;
         break;
       }
       errno = 0;  // yes that's right
@@ -652,6 +654,11 @@ void DirectorySourceQueue::enqueueFilesToBeDeleted() {
     // not yet been received, return
     return;
   }
+  if (discoveryFailed_) {
+    // files that exist may not have been discovered
+    WLOG(ERROR) << "File discovery failed, extra files will not be deleted";
+    return;
+  }
   std::set<std::string> discoveredFiles;
   for (const SourceMetaData* metadata : sharedFileData_) {
     discoveredFiles.insert(metadata->relPath);
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index 46143af..aff931d 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -341,6 +341,9 @@ class DirectorySourceQueue : public SourceQueue {
   /// Indicates whether call to init() has finished
   bool initFinished_{false};
 
+  /// Indicates whether some files may not have been discovered
+  bool discoveryFailed_{false};
+
   struct SourceComparator {
     bool operator()(const std::unique_ptr<ByteSource>& source1,
                     const std::unique_ptr<ByteSource>& source2) {
-- 
2.43.0


From ee69ca37aa051da4e0ccefeb9a98ca371bba0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 20/20] fix: FileByteSource: a short direct read that brings
 nothing of what is wanted is an unexpected end of file

---
 util/FileByteSource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..b4cadaa 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,9 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing of what is wanted was read : an aligned read starts before the
+    // wanted offset
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0

