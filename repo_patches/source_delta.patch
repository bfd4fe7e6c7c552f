From 569cb90ad05733462c4821413398582fbb7afffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 01/22] fix: order all owners' accesses before a chunk is freed
 or reused

The reference counter decrement that frees a chunk and the sole owner test
that recycles one were relaxed, so accesses of other owners were not ordered
before the next user's writes (data race on weakly ordered hardware).
---
 iceoryx_posh/source/mepoo/shared_chunk.cpp             | 2 +-
 iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/mepoo/shared_chunk.cpp b/iceoryx_posh/source/mepoo/shared_chunk.cpp
index 035f49d..d6fe362 100644
--- a/iceoryx_posh/source/mepoo/shared_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shared_chunk.cpp
@@ -54,7 +54,7 @@ void SharedChunk::incrementReferenceCounter() noexcept
 void SharedChunk::decrementReferenceCounter() noexcept
 {
     if ((m_chunkManagement != nullptr)
-        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_relaxed) == 1U))
+        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
     {
         MemoryManager::freeChunk(*m_chunkManagement);
         m_chunkManagement = nullptr;
diff --git a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
index 32116ac..ff5da97 100644
--- a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
@@ -113,7 +113,7 @@ bool ShmSafeUnmanagedChunk::isNotLogicalNullptrAndHasNoOtherOwners() const noexc
 
     auto chunkMgmt =
         RelativePointer<mepoo::ChunkManagement>(m_chunkManagement.offset(), segment_id_t{m_chunkManagement.id()});
-    return chunkMgmt->m_referenceCounter.load(std::memory_order_relaxed) == 1U;
+    return chunkMgmt->m_referenceCounter.load(std::memory_order_acquire) == 1U;
 }
 
 } // namespace mepoo
-- 
2.43.0


From 9895ca4b830fcdafa551d83c3e5bd160061e6961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 02/22] fix: publish queue slots with release/acquire ordering

The index queues handed buffer slots between threads with relaxed atomics only, so the
element accesses of one owner of a slot were unordered with those of the next one.
---
 .../mpmc_lockfree_queue/mpmc_index_queue.inl   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
index 5c76800..ec94970 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
@@ -79,7 +79,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
     auto writePosition = m_writePosition.load(std::memory_order_relaxed);
     do
     {
-        auto oldValue = loadvalueAt(writePosition, std::memory_order_relaxed);
+        auto oldValue = loadvalueAt(writePosition, std::memory_order_acquire);
 
         auto cellIsFree = oldValue.isOneCycleBehind(writePosition);
 
@@ -90,7 +90,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
 
             // if publish fails, another thread has published before us
             bool published = m_cells[writePosition.getIndex()].compare_exchange_weak(
-                oldValue, newValue, std::memory_order_relaxed, std::memory_order_relaxed);
+                oldValue, newValue, std::memory_order_release, std::memory_order_acquire);
 
             if (published)
             {
@@ -111,7 +111,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
 
             Index newWritePosition(writePosition + 1U);
             m_writePosition.compare_exchange_strong(
-                writePosition, newWritePosition, std::memory_order_relaxed, std::memory_order_relaxed);
+                writePosition, newWritePosition, std::memory_order_release, std::memory_order_relaxed);
         }
         else
         {
@@ -131,7 +131,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
     // In this case it is also ok: the push is only complete once this update of m_writePosition was executed,
     // and the queue (logically) cannot be full until this happens.
     m_writePosition.compare_exchange_strong(
-        writePosition, newWritePosition, std::memory_order_relaxed, std::memory_order_relaxed);
+        writePosition, newWritePosition, std::memory_order_release, std::memory_order_relaxed);
 }
 
 template <uint64_t Capacity, typename ValueType>
@@ -159,7 +159,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::pop(ValueType& index) noexcept
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
     do
     {
-        value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        value = loadvalueAt(readPosition, std::memory_order_acquire);
 
         // we only dequeue if value and readPosition are in the same cycle
         auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();
@@ -207,9 +207,9 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfFull(ValueType& index) noe
     // unfortunately it seems impossible in this design to check this condition without loading
     // write posiion and read position (which causes more contention)
 
-    const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
+    const auto writePosition = m_writePosition.load(std::memory_order_acquire);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
-    const auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+    const auto value = loadvalueAt(readPosition, std::memory_order_acquire);
 
     auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);
 
@@ -240,7 +240,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // which to load first should make no difference for correctness
     // but for performance it might
     // note that without sync mechanisms (such as seq_cst), reordering is possible
-    const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
+    const auto writePosition = m_writePosition.load(std::memory_order_acquire);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
 
     // if readPosition + n = readPosition for some n>=0, the queue contains n elements
@@ -264,7 +264,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // delta is positive, therefore the conversion is fine (it surely fits into uint64_t)
     if (static_cast<uint64_t>(delta) >= minSize)
     {
-        auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        auto value = loadvalueAt(readPosition, std::memory_order_acquire);
         Index newReadPosition(readPosition + 1U);
         auto ownershipGained = m_readPosition.compare_exchange_strong(
             readPosition, newReadPosition, std::memory_order_relaxed, std::memory_order_relaxed);
-- 
2.43.0


From daee4142d172d88db72e9a2bde6a85cec71141d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:48 +0000
Subject: [PATCH 03/22] fix: reject user-headers for which the user-payload
 offset would overflow

The offset from the chunk-header to the user-payload is stored as 32 bit
value. A user-header close to 4 GiB was accepted by ChunkSettings::create
and the offset got truncated; the user-payload then overlapped the header.
---
 iceoryx_posh/source/mepoo/chunk_settings.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/mepoo/chunk_settings.cpp b/iceoryx_posh/source/mepoo/chunk_settings.cpp
index a9eb9ed..5c8cd28 100644
--- a/iceoryx_posh/source/mepoo/chunk_settings.cpp
+++ b/iceoryx_posh/source/mepoo/chunk_settings.cpp
@@ -117,6 +117,12 @@ expected<uint64_t, ChunkSettings::Error> ChunkSettings::calculateRequiredChunkSi
     uint64_t preUserPayloadAlignmentOverhang = align(headerSize, ALIGNMENT_OF_USER_PAYLOAD_OFFSET_T);
     uint64_t maxPadding = algorithm::maxVal(SIZE_OF_USER_PAYLOAD_OFFSET_T, static_cast<uint64_t>(userPayloadAlignment));
 
+    // the offset from the chunk-header to the user-payload is stored as UserPayloadOffset_t
+    if (preUserPayloadAlignmentOverhang + maxPadding > std::numeric_limits<ChunkHeader::UserPayloadOffset_t>::max())
+    {
+        return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
+    }
+
     if (userPayloadSize > std::numeric_limits<uint64_t>::max() - preUserPayloadAlignmentOverhang - maxPadding)
     {
         return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
-- 
2.43.0


From 9998a10f8ec9b3221a6ddf093938644837bf88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:44 +0000
Subject: [PATCH 04/22] fix: do not lose notifications while the condition
 listener collects them

The listener reset 'm_wasNotified' after it collected the notifications and thereby
discarded the information of a notifier running in between. Additionally the reset of the
notification itself was a plain relaxed store which could overwrite a more recent
notification and which did not order the data of the notifier.
---
 .../source/popo/building_blocks/condition_listener.cpp    | 8 ++++++--
 .../source/popo/building_blocks/condition_notifier.cpp    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..e4fba14 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // must happen before the notifications are collected; a notifier which sets its notification afterwards, sets
+        // also this flag afterwards and the notification is either collected here or the flag remains set
+        getMembers()->m_wasNotified.exchange(false, std::memory_order_acq_rel);
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -108,8 +111,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
-    getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
+    // read-modify-write operation to observe everything which happened before the latest consumed notification and to
+    // not overwrite a notification which was set after the user started to handle this one
+    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acq_rel);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
index 7174331..e849582 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
@@ -39,7 +39,7 @@ ConditionNotifier::ConditionNotifier(ConditionVariableData& condVarDataRef, cons
 void ConditionNotifier::notify() noexcept
 {
     getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);
-    getMembers()->m_wasNotified.store(true, std::memory_order_relaxed);
+    getMembers()->m_wasNotified.store(true, std::memory_order_release);
     getMembers()->m_semaphore->post().or_else(
         [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });
 }
-- 
2.43.0


From 29711fab9a69e33e44f727da6187015057aa46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:44 +0000
Subject: [PATCH 05/22] fix: detach the condition variable from the port when a
 C subscriber is detached

---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index e7458f5..975aa34 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -47,6 +47,7 @@ void cpp2c_Subscriber::disableEvent(const SubscriberEvent subscriberEvent) noexc
     {
     case SubscriberEvent::DATA_RECEIVED:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
@@ -70,6 +71,7 @@ void cpp2c_Subscriber::disableState(const SubscriberState subscriberState) noexc
     {
     case SubscriberState::HAS_DATA:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
-- 
2.43.0


From b3da934a954711566c34735ee9cf942d0355caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:44 +0000
Subject: [PATCH 06/22] fix: do not send STOP_OFFER to clients which are not
 connected

A client which is not connected treats STOP_OFFER as protocol violation and this terminated RouDi.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..81777fa 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -636,6 +636,13 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
+            // a STOP_OFFER is only relevant for connected clients; all the others would treat it as protocol violation
+            if (message.m_type == capro::CaproMessageType::STOP_OFFER
+                && popo::ClientPortUser(clientPortData).getConnectionState() != ConnectionState::CONNECTED)
+            {
+                continue;
+            }
+
             // send OFFER/STOP_OFFER to client
             auto clientResponse = clientPort.dispatchCaProMessageAndGetPossibleResponse(message);
 
-- 
2.43.0


From 2ec705b223048be52ff1836f54cdc455fd454937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:11 +0000
Subject: [PATCH 07/22] fix: publish the service registry when the last
 publisher or server of a shared service is removed

The entry stays when only one of both counters drops to zero, but the change has to reach the service discovery.
---
 iceoryx_posh/source/roudi/service_registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..22f7809 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,12 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->publisherCount == 0U && entry->serverCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
@@ -121,12 +121,12 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->serverCount == 0U && entry->publisherCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
-- 
2.43.0


From 82ef16533de7726bc62139c55d8078555e9c65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:11 +0000
Subject: [PATCH 08/22] fix: request the publisher with the adjusted options

The default node name and the limited history capacity were computed but the unadjusted options were sent to RouDi.
---
 iceoryx_posh/source/runtime/posh_runtime_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
index d63db25..71f1dfe 100644
--- a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
+++ b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
@@ -172,7 +172,7 @@ PoshRuntimeImpl::getMiddlewarePublisher(const capro::ServiceDescription& service
 
     IpcMessage sendBuffer;
     sendBuffer << IpcMessageTypeToString(IpcMessageType::CREATE_PUBLISHER) << m_appName
-               << static_cast<Serialization>(service).toString() << publisherOptions.serialize().toString()
+               << static_cast<Serialization>(service).toString() << options.serialize().toString()
                << static_cast<Serialization>(portConfigInfo).toString();
 
     auto maybePublisher = requestPublisherFromRoudi(sendBuffer);
-- 
2.43.0


From e0d0455f829dd9f9754dcc1076712857553dead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:25 +0000
Subject: [PATCH 09/22] fix: do not forward offers to interface ports which are
 being removed

---
 iceoryx_posh/source/roudi/port_manager.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 81777fa..8e3999a 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -424,11 +424,6 @@ void PortManager::handleInterfaces() noexcept
     while (port != interfacePorts.end())
     {
         auto currentPort = port++;
-        if (currentPort->m_doInitialOfferForward)
-        {
-            interfacePortsForInitialForwarding.push_back(currentPort.to_ptr());
-            currentPort->m_doInitialOfferForward = false;
-        }
 
         // check if we have to destroy this interface port
         if (currentPort->m_toBeDestroyed.load(std::memory_order_relaxed))
@@ -438,6 +433,13 @@ void PortManager::handleInterfaces() noexcept
                                                             << "' and with service description '"
                                                             << currentPort->m_serviceDescription << "'");
             m_portPool->removeInterfacePort(currentPort.to_ptr());
+            continue;
+        }
+
+        if (currentPort->m_doInitialOfferForward)
+        {
+            interfacePortsForInitialForwarding.push_back(currentPort.to_ptr());
+            currentPort->m_doInitialOfferForward = false;
         }
     }
 
-- 
2.43.0


From 2c84e1298f53c6bb52c5d8d5acd580463cb538f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 10/22] fix: reject negative interface values in a
 CREATE_INTERFACE request

---
 iceoryx_posh/source/roudi/port_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 8e3999a..bf341e9 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -41,7 +41,7 @@ capro::Interfaces StringToCaProInterface(const capro::IdString_t& str) noexcept
 
     const auto i = result.value();
 
-    if (i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))
+    if (i < 0 || i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))
     {
         IOX_LOG(Warn, "invalid enum (out of range: " << i << ")");
         return capro::Interfaces::INTERNAL;
-- 
2.43.0


From 3cfef1dadddc195b3825943339a2bbcc34ae6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 11/22] fix: reject serialized entries whose announced length
 overflows

---
 iceoryx_hoofs/utility/include/iox/detail/serialization.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
index 502e1b1..478ce3b 100644
--- a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
+++ b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
@@ -121,7 +121,7 @@ inline bool Serialization::removeFirstEntry(std::string& firstEntry, std::string
 
     const auto length = result.value();
 
-    if (remainder.size() < pos + length + 1U)
+    if (remainder.size() - pos - 1U < length)
     {
         return false;
     }
-- 
2.43.0


From 4b31947e839e9a4dfeb46a639121f5e952326e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 12/22] fix: UnnamedSemaphoreBuilder reports a failing sem_init

The error path reset the optional but returned ok(); the caller then used an
empty optional as semaphore.
---
 iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
index 63d5986..3bdbcd7 100644
--- a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
+++ b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
@@ -49,13 +49,13 @@ UnnamedSemaphoreBuilder::create(optional<UnnamedSemaphore>& uninitializedSemapho
         {
         case EINVAL:
             IOX_LOG(Error, "The initial value of " << m_initialValue << " exceeds " << IOX_SEM_VALUE_MAX);
-            break;
+            return err(SemaphoreError::SEMAPHORE_OVERFLOW);
         case ENOSYS:
             IOX_LOG(Error, "The system does not support process-shared semaphores");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         default:
             IOX_LOG(Error, "This should never happen. An unknown error occurred.");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         }
     }
 
-- 
2.43.0


From 72b398a83b11f16e9eb2a8b065af8111c4a07367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 13/22] fix: NamedPipe::tryReceive(string) reports the message
 it took

The message was taken from the pipe and its slot freed, but INTERNAL_LOGIC_ERROR
was returned: the message was lost for a caller that relies on the result.
---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From 836311096112fe7d537774c37c82d38ae0f75978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 14/22] fix: an empty message from a peer does not terminate
 the receiver

The last byte of a message of length zero was looked up before the buffer and a
length of UINT64_MAX handed to the string, which terminates the process.
---
 iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl    | 2 +-
 .../posix/ipc/include/iox/detail/unix_domain_socket.inl         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
index bd46cfd..61245c7 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
@@ -199,7 +199,7 @@ expected<uint64_t, PosixIpcChannelError> MessageQueue::receiveVerification(not_n
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
+        if (msgLenght == 0 || msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..835620e 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -101,7 +101,7 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
+        if (receivedMsgLength == 0 || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
-- 
2.43.0


From e37cb7e63f899d756976559aad02b768b026e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:48 +0000
Subject: [PATCH 15/22] fix: MessageQueue::open detects a failing mq_open

mq_open returns -1 on failure, not INVALID_DESCRIPTOR (the largest mqd_t):
opening a queue that does not exist succeeded.
---
 iceoryx_hoofs/posix/ipc/source/message_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
index 26d6ce7..4eec52f 100644
--- a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
@@ -215,7 +215,7 @@ expected<mqd_t, PosixIpcChannelError> MessageQueue::open(const PosixIpcChannelNa
         mode_t umaskSaved = umask(0);
         auto mqCall =
             IOX_POSIX_CALL(iox_mq_open4)(sanitizedName.c_str(), openFlags, MessageQueue::FILE_MODE, &attributes)
-                .failureReturnValue(MessageQueue::INVALID_DESCRIPTOR)
+                .failureReturnValue(static_cast<mqd_t>(MessageQueue::ERROR_CODE))
                 .suppressErrorMessagesForErrnos(ENOENT)
                 .evaluate();
 
-- 
2.43.0


From d27fc361557dc07c5546ecef4ea0c911e6a08e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:51 +0000
Subject: [PATCH 16/22] fix: pointer repository must not find pointers in
 unregistered segments

An unregistered entry keeps its end address while its base is a nullptr, so every
pointer below the former end was found in it instead of in its own segment.
---
 iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..749d78b 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -103,7 +103,7 @@ inline id_t PointerRepository<id_t, ptr_t, CAPACITY>::searchId(const ptr_t ptr)
     {
         // return first id where the ptr is in the corresponding interval
         // AXIVION Next Construct AutosarC++19_03-M5.14.1 : False positive. vector::operator[](index) has no side-effect when index is less than vector size which is guaranteed by PointerRepository design
-        if ((ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
+        if ((m_info[id].basePtr != nullptr) && (ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
         {
             return id;
         }
-- 
2.43.0


From e456fcc67481b79c6052b3cafde1907c84865994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 17/22] fix: C binding terminates service description strings
 of full length

---
 .../source/cpp2c_service_description_translation.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
index 1938d0b..7d283d1 100644
--- a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
+++ b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
@@ -18,7 +18,7 @@
 
 iox_service_description_t TranslateServiceDescription(const iox::capro::ServiceDescription& serviceDescription) noexcept
 {
-    iox_service_description_t retVal;
+    iox_service_description_t retVal{};
 
 #if defined(__GNUC__) && __GNUC__ >= 8
 #pragma GCC diagnostic push
-- 
2.43.0


From 5c65fe2b702515a5f5160725a320052d2556d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 18/22] fix: C binding counts the missed services of each
 search from zero

---
 iceoryx_binding_c/source/c_service_discovery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_binding_c/source/c_service_discovery.cpp b/iceoryx_binding_c/source/c_service_discovery.cpp
index 7765076..d0c280e 100644
--- a/iceoryx_binding_c/source/c_service_discovery.cpp
+++ b/iceoryx_binding_c/source/c_service_discovery.cpp
@@ -73,6 +73,7 @@ uint64_t iox_service_discovery_find_service(iox_service_discovery_t const self,
         maybeEvent.emplace(TruncateToCapacity, event);
     }
 
+    *missedServices = 0U;
     uint64_t currentSize = 0U;
     auto filter = [&](const capro::ServiceDescription& s) {
         if (currentSize < serviceContainerCapacity)
-- 
2.43.0


From 1e668f1b357266c6a22c9ece54cbc31ad904df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 19/22] fix: C binding does not touch a publisher port after
 handing it over

---
 iceoryx_binding_c/source/c_publisher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iceoryx_binding_c/source/c_publisher.cpp b/iceoryx_binding_c/source/c_publisher.cpp
index 5ff63be..f5e90ce 100644
--- a/iceoryx_binding_c/source/c_publisher.cpp
+++ b/iceoryx_binding_c/source/c_publisher.cpp
@@ -109,7 +109,6 @@ void iox_pub_deinit(iox_pub_t const self)
 {
     IOX_ENFORCE(self != nullptr, "'self' must not be a 'nullptr'");
 
-    self->m_portData->m_toBeDestroyed.store(true, std::memory_order_relaxed);
     delete self;
 }
 
-- 
2.43.0


From 46eeb0876c576e91f75bca02588eee996fb9d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 20/22] fix: C binding detaches a subscriber before its port is
 handed over

---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index 975aa34..7cad199 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -22,6 +22,7 @@ using namespace iox::popo;
 
 cpp2c_Subscriber::~cpp2c_Subscriber() noexcept
 {
+    m_trigger.reset();
     if (m_portData)
     {
         iox::popo::SubscriberPortUser(m_portData).destroy();
-- 
2.43.0


From 0e162dca185624987a3d477e4765894fbf44abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:01 +0000
Subject: [PATCH 21/22] fix: report numbers out of range in the RouDi
 configuration file

cpptoml throws when a number of the file does not fit the type it is read
as. The values were read outside of the try block in a noexcept function,
so that RouDi was terminated instead of reporting EXCEPTION_IN_PARSER.
---
 .../roudi/roudi_config_toml_file_provider.cpp | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
index 510028d..fe8ba13 100644
--- a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
+++ b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
@@ -102,22 +102,10 @@ iox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError> TomlRou
 
 iox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>
 TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
+try
 {
-    std::shared_ptr<cpptoml::table> parsedFile{nullptr};
-    try
-    {
-        cpptoml::parser p{stream};
-        parsedFile = p.parse();
-    }
-    catch (const std::exception& parserException)
-    {
-        auto parserError = iox::roudi::RouDiConfigFileParseError::EXCEPTION_IN_PARSER;
-        auto errorStringIndex = static_cast<uint64_t>(parserError);
-        IOX_LOG(Warn,
-                iox::roudi::ROUDI_CONFIG_FILE_PARSE_ERROR_STRINGS[errorStringIndex] << ": " << parserException.what());
-
-        return iox::err(parserError);
-    }
+    cpptoml::parser p{stream};
+    auto parsedFile = p.parse();
 
     auto general = parsedFile->get_table("general");
     if (!general)
@@ -181,5 +169,14 @@ TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
 
     return iox::ok(parsedConfig);
 }
+catch (const std::exception& parserException)
+{
+    auto parserError = iox::roudi::RouDiConfigFileParseError::EXCEPTION_IN_PARSER;
+    auto errorStringIndex = static_cast<uint64_t>(parserError);
+    IOX_LOG(Warn,
+            iox::roudi::ROUDI_CONFIG_FILE_PARSE_ERROR_STRINGS[errorStringIndex] << ": " << parserException.what());
+
+    return iox::err(parserError);
+}
 } // namespace config
 } // namespace iox
-- 
2.43.0


From c9845884655df779a118224b3969ec4c1035999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:51 +0000
Subject: [PATCH 22/22] fix: refuse sizes that wrap around in
 BumpAllocator::allocate

---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..07d94e8 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -48,13 +48,13 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
 
     void* allocation{nullptr};
 
-    const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    // compare with the remaining memory since 'alignedPosition + size' would wrap around for a huge size
+    if (alignedPosition <= m_length && size <= m_length - alignedPosition)
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
         allocation = reinterpret_cast<void*>(m_startAddress + alignedPosition);
-        m_currentPosition = nextPosition;
+        m_currentPosition = alignedPosition + size;
     }
     else
     {
-- 
2.43.0

