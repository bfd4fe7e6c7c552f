"""(property, name, 'bad'|'ok', [(file, old, new)])"""
M = []


def m(pid, name, expect, *edits):
    M.append((pid, name, expect, list(edits)))


LF = "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"
m("P04", "aba", "bad", (LF, "newHead.abaCounter = oldHead.abaCounter + 1;", "newHead.abaCounter = oldHead.abaCounter;"))
m("P04", "push-before-loop", "bad", (LF, "        m_nextFreeIndex.get()[index] = oldHead.indexToNextFreeIndex;\n", ""), (LF, "    Node newHead = oldHead;\n\n    do\n    {\n        // NOLINTEND", "XX")) if False else None
m("P04", "range-le", "bad", (LF, "oldHead.indexToNextFreeIndex >= m_size", "oldHead.indexToNextFreeIndex > m_size"))
m("P04", "no-double", "bad", (LF, " || m_nextFreeIndex.get()[index] != m_invalidIndex", ""))
m("P04", "relaxed-cas", "bad", (LF, "std::memory_order_acq_rel, std::memory_order_acquire", "std::memory_order_acquire, std::memory_order_acquire"))
m("P04", "nofence", "bad", (LF, "std::atomic_thread_fence(std::memory_order_release);", ""))
m("P04", "init-short", "bad", (LF, "i < m_size + 1", "i + 1 < m_size"))
m("P04", "init-le", "ok", (LF, "i < m_size + 1", "i <= m_size"))
m("P04", "invalid-size", "bad", (LF, "m_invalidIndex = m_size + 1", "m_invalidIndex = m_size"))
m("P04", "aba-ok", "ok", (LF, "newHead.abaCounter = oldHead.abaCounter + 1;", "newHead.abaCounter = 1 + oldHead.abaCounter;\n        static_cast<void>(newHead);"))
BD = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
FI, SO, IQ, LQ, RQ = BD + "spsc_fifo.inl", BD + "spsc_sofi.inl", BD + "mpmc_lockfree_queue/mpmc_index_queue.inl", BD + "mpmc_lockfree_queue/mpmc_lockfree_queue.inl", BD + "mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl"
m("P05", "fifo-full", "bad", (FI, "currentWritePos == currentReadPos + Capacity", "currentWritePos == currentReadPos + Capacity + 1"))
m("P05", "fifo-full2", "ok", (FI, "currentWritePos == currentReadPos + Capacity", "currentWritePos - currentReadPos == Capacity"))
m("P05", "fifo-full3", "ok", (FI, "currentWritePos == currentReadPos + Capacity", "!(currentWritePos - currentReadPos < Capacity)"))
m("P05", "fifo-relaxed", "bad", (FI, "m_writePos.store(currentWritePos + 1, std::memory_order_release)", "m_writePos.store(currentWritePos + 1, std::memory_order_relaxed)"))
m("P05", "fifo-early", "bad", (FI, "    m_data[currentWritePos % Capacity] = value;\n", ""), (FI, "    m_writePos.store(currentWritePos + 1, std::memory_order_release);\n", "    m_writePos.store(currentWritePos + 1, std::memory_order_release);\n    m_data[currentWritePos % Capacity] = value;\n"))
m("P05", "fifo-popread", "bad", (FI, "    ValueType out = m_data[currentReadPos % Capacity];\n", ""), (FI, "    return out;", "    return m_data[currentReadPos % Capacity];"))
m("P05", "sofi-cap", "bad", (SO, "nextWritePosition < currentReadPosition + m_size", "nextWritePosition <= currentReadPosition + m_size"))
m("P05", "sofi-evict-slot", "bad", (SO, "std::memcpy(&valueOut, &m_data[currentReadPosition % m_size], sizeof(ValueType));\n\n        return SOFI", "std::memcpy(&valueOut, &m_data[(currentReadPosition + 1U) % m_size], sizeof(ValueType));\n\n        return SOFI")) if False else None
m("P05", "sofi-nopop", "bad", (SO, "if (empty() && (newInternalSize", "if ((newInternalSize"))
m("P05", "sofi-pop-relaxed", "bad", (SO, "if (currentReadPosition == m_writePosition.load(std::memory_order_acquire))", "if (currentReadPosition == m_writePosition.load(std::memory_order_relaxed))"))
m("P05", "sofi-pop-stale", "bad", (SO, "m_readPosition.compare_exchange_weak(\n        currentReadPosition, nextReadPosition, std::memory_order_acq_rel, std::memory_order_acquire)", "m_readPosition.compare_exchange_weak(\n        currentReadPosition, nextReadPosition, std::memory_order_relaxed, std::memory_order_acquire)"))
m("P06", "stamp", "bad", (IQ, "Index newValue(index, writePosition.getCycle());", "Index newValue(index, oldValue.getCycle());"))
m("P06", "pop-nocheck", "bad", (IQ, "auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();", "auto cellIsValidToRead = readPosition.getCycle() <= value.getCycle();"))
m("P06", "leak-index", "bad", (LQ, "    auto result = readBufferAt(index);\n\n    m_freeIndices.push(index);\n", "    auto result = readBufferAt(index);\n    if (index != 3U || !empty()) { m_freeIndices.push(index); }\n"))
m("P06", "push-early", "bad", (LQ, "    writeBufferAt(index, value); // const& version is called\n\n    m_usedIndices.push(index);", "    m_usedIndices.push(index);\n    writeBufferAt(index, value); // const& version is called\n"))
m("P06", "no-dtor", "bad", (LQ, "    element.~ElementType();\n", ""))
m("P06", "isfull", "bad", (IQ, "auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);", "auto isFull = readPosition.isOneCycleBehind(writePosition);"))
m("P06", "atleast", "bad", (IQ, "static_cast<uint64_t>(delta) >= minSize", "static_cast<uint64_t>(delta) + 1U >= minSize"))
m("P06", "retire", "bad", (RQ, "            m_unusedIndices.push_back(index);\n            ++decreased;", "            ++decreased;"))
m("P06", "evict-helper", "ok", (LQ, "    m_size.fetch_sub(1U, std::memory_order_acquire);\n", "    m_size.fetch_sub(1U, std::memory_order_acquire);\n    static_cast<void>(index);\n"))
m("P06", "resize-flag", "bad", (RQ, "m_resizeInProgress.clear(std::memory_order_release);", "m_resizeInProgress.clear(std::memory_order_relaxed);"))
CS, CH = "iceoryx_posh/source/mepoo/chunk_settings.cpp", "iceoryx_posh/source/mepoo/chunk_header.cpp"
m("P03", "nofix", "bad", (CS, "preUserPayloadAlignmentOverhang + maxPadding > std::numeric_limits<ChunkHeader::UserPayloadOffset_t>::max()", "false"))
m("P03", "pad", "bad", (CS, "algorithm::maxVal(SIZE_OF_USER_PAYLOAD_OFFSET_T, static_cast<uint64_t>(userPayloadAlignment))", "static_cast<uint64_t>(userPayloadAlignment)"))
m("P03", "pad-more", "ok", (CS, "algorithm::maxVal(SIZE_OF_USER_PAYLOAD_OFFSET_T, static_cast<uint64_t>(userPayloadAlignment))", "SIZE_OF_USER_PAYLOAD_OFFSET_T + static_cast<uint64_t>(userPayloadAlignment)"))
m("P03", "overhang", "bad", (CS, "sizeof(ChunkHeader) - alignof(ChunkHeader)", "sizeof(ChunkHeader) - 2U * alignof(ChunkHeader)"))
m("P03", "overflow", "bad", (CS, "> std::numeric_limits<uint64_t>::max() - preUserPayloadAlignmentOverhang - userPayloadAlignment", "> std::numeric_limits<uint64_t>::max() - userPayloadAlignment"))
m("P03", "backoff", "bad", (CH, "            // set back offset\n", "")) if False else None
m("P03", "hdralign", "bad", (CS, "adjustedUserHeaderAlignment > alignof(ChunkHeader)", "adjustedUserHeaderAlignment > 2U * alignof(ChunkHeader)"))
m("P03", "boundary-align", "bad", (CH, "if (userPayloadAlignment <= alignof(mepoo::ChunkHeader))", "if (userPayloadAlignment <= 2U * alignof(mepoo::ChunkHeader))"))
m("P03", "unaligned-back", "bad", (CH, "uint64_t anticipatedBackOffsetAddress = iox::align(headerEndAddress, userPayloadOffsetAlignment);\n", "uint64_t anticipatedBackOffsetAddress = headerEndAddress;\n"))
m("P03", "enforce", "bad", (CH, 'IOX_ENFORCE(overflowSafeUsedSizeOfChunk() <= chunkSize, "Used size of chunk would exceed the actual chunk size!");', ''))
m("P03", "helper", "ok", (CH, "uint64_t unalignedUserPayloadAddress = anticipatedBackOffsetAddress + sizeof(UserPayloadOffset_t);", "uint64_t unalignedUserPayloadAddress = anticipatedBackOffsetAddress;\n        unalignedUserPayloadAddress += sizeof(UserPayloadOffset_t);"))
m("P03", "swapcond", "ok", (CS, "    if (userHeaderSize % adjustedUserHeaderAlignment != 0U)", "    if ((userHeaderSize & (adjustedUserHeaderAlignment - 1U)) != 0U)"))
UL = "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"
m("P07", "ins-order", "bad", (UL, "m_listIndices[m_freeListHead] = m_usedListHead;\n", "m_listIndices[m_freeListHead] = INVALID_INDEX;\n"))
m("P07", "ins-norelease", "bad", (UL, "        m_freeListHead = nextFree;\n\n        m_synchronizer.clear(std::memory_order_release);\n", "        m_synchronizer.clear(std::memory_order_release);\n        m_freeListHead = nextFree;\n"))
m("P07", "ins-slot", "ok", (UL, "        auto nextFree = m_listIndices[m_freeListHead];\n", "        const auto slot = m_freeListHead;\n        auto nextFree = m_listIndices[slot];\n"), (UL, "m_listIndices[m_freeListHead] = m_usedListHead;", "m_listIndices[slot] = m_usedListHead;"), (UL, "m_usedListHead = m_freeListHead;\n", "m_usedListHead = slot;\n"))
m("P07", "rem-unlink", "bad", (UL, "                    m_listIndices[previous] = m_listIndices[current];", "                    m_listIndices[previous] = m_listIndices[m_usedListHead];"))
m("P07", "rem-prev", "bad", (UL, "        previous = current;\n", "        if (!m_listData[current].isLogicalNullptr()) { previous = current; }\n"))
m("P07", "rem-leakslot", "bad", (UL, "                m_freeListHead = current;\n", "                if (previous != INVALID_INDEX) { m_freeListHead = current; }\n"))
m("P07", "clean-walk", "bad", (UL, "    for (auto& data : m_listData)\n    {\n        if (!data.isLogicalNullptr())", "    for (uint32_t i = 1U; i < Capacity; ++i)\n    {\n        auto& data = m_listData[i];\n        if (!data.isLogicalNullptr())"), (UL, "    for (auto& data : m_listData)\n    {\n        data.releaseToSharedChunk();\n    }\n", ""))
m("P07", "clean-index", "ok", (UL, "    for (auto& data : m_listData)\n    {\n        if (!data.isLogicalNullptr())", "    for (uint32_t i = 0U; i < Capacity; ++i)\n    {\n        auto& data = m_listData[i];\n        if (!data.isLogicalNullptr())"))
m("P07", "while", "ok", (UL, "    for (auto current = m_usedListHead; current != INVALID_INDEX; current = m_listIndices[current])\n    {", "    auto current = m_usedListHead;\n    while (current != INVALID_INDEX)\n    {"), (UL, "        previous = current;\n", "        previous = current;\n        current = m_listIndices[current];\n"))
m("P07", "prevcheck", "ok", (UL, "if (current == m_usedListHead)", "if (previous == INVALID_INDEX)"))
BB = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/"
SN = BB + "chunk_sender.inl"
m("P08", "size-gt", "bad", (SN, "(lastChunkChunkHeader->chunkSize() >= requiredChunkSize)", "(lastChunkChunkHeader->chunkSize() >= userPayloadSize)"))
m("P08", "notsole", "bad", (SN, "lastChunkUnmanaged.isNotLogicalNullptrAndHasNoOtherOwners() ?", "!lastChunkUnmanaged.isLogicalNullptr() ?"))
m("P08", "keepsize", "bad", (SN, "auto chunkSize = lastChunkChunkHeader->chunkSize();", "auto chunkSize = requiredChunkSize;"))
m("P08", "noorigin", "bad", (SN, "            lastChunkChunkHeader->setOriginId(originId);\n", ""))
m("P08", "leak-last", "bad", (SN, "        this->addToHistoryWithoutDelivery(chunk);\n\n        getMembers()->m_lastChunkUnmanaged.releaseToSharedChunk();\n", "        this->addToHistoryWithoutDelivery(chunk);\n\n"))
m("P08", "seq", "bad", (SN, "        chunk.getChunkHeader()->setSequenceNumber(getMembers()->m_sequenceNumber++);\n        return true;", "        if (!this->getHistoryCapacity()) { return true; }\n        chunk.getChunkHeader()->setSequenceNumber(getMembers()->m_sequenceNumber++);\n        return true;"))
m("P08", "relall", "bad", (SN, "    this->cleanup();\n    getMembers()->m_lastChunkUnmanaged.releaseToSharedChunk();", "    this->cleanup();"))
m("P08", "order-ok", "ok", (SN, "        numberOfReceiverTheChunkWasDelivered = this->deliverToAllStoredQueues(chunk);\n\n        getMembers()->m_lastChunkUnmanaged.releaseToSharedChunk();\n        getMembers()->m_lastChunkUnmanaged = chunk;", "        getMembers()->m_lastChunkUnmanaged.releaseToSharedChunk();\n        getMembers()->m_lastChunkUnmanaged = chunk;\n        numberOfReceiverTheChunkWasDelivered = this->deliverToAllStoredQueues(chunk);"))
m("P08", "early-ret", "ok", (SN, "    if (getChunkReadyForSend(chunkHeader, chunk))\n    {\n        numberOfReceiverTheChunkWasDelivered = this->deliverToAllStoredQueues(chunk);\n\n        getMembers()->m_lastChunkUnmanaged.releaseToSharedChunk();\n        getMembers()->m_lastChunkUnmanaged = chunk;\n    }", "    if (!getChunkReadyForSend(chunkHeader, chunk))\n    {\n        return 0U;\n    }\n    auto* members = getMembers();\n    numberOfReceiverTheChunkWasDelivered = this->deliverToAllStoredQueues(chunk);\n    members->m_lastChunkUnmanaged.releaseToSharedChunk();\n    members->m_lastChunkUnmanaged = chunk;"))
m("P08", "seq2", "ok", (SN, "chunk.getChunkHeader()->setSequenceNumber(getMembers()->m_sequenceNumber++);", "auto* mem = getMembers();\n        const auto nr = mem->m_sequenceNumber;\n        mem->m_sequenceNumber = nr + 1U;\n        chunk.getChunkHeader()->setSequenceNumber(nr);"))
m("P08", "hdrvar", "ok", (SN, "            chunk.getChunkHeader()->setOriginId(originId);\n            return ok(chunk.getChunkHeader());", "            auto* header = chunk.getChunkHeader();\n            header->setOriginId(originId);\n            return ok(header);"))
RC, PO, DI, PU, VQ = BB + "chunk_receiver.inl", BB + "chunk_queue_popper.inl", BB + "chunk_distributor.inl", BB + "chunk_queue_pusher.inl", BB + "variant_queue.inl"
m("P09", "leak-drop", "bad", (PO, "        auto chunk = retVal.value().releaseToSharedChunk();\n", "        auto chunk = retVal.value().cloneToSharedChunk();\n"))
m("P09", "version-lt", "bad", (PO, "receivedChunkHeaderVersion != mepoo::ChunkHeader::CHUNK_HEADER_VERSION", "receivedChunkHeaderVersion < mepoo::ChunkHeader::CHUNK_HEADER_VERSION"))
m("P09", "clear-one", "bad", (PO, "    while (auto maybeUnmanagedChunk = getMembers()->m_queue.pop())", "    if (auto maybeUnmanagedChunk = getMembers()->m_queue.pop())"))
m("P09", "clear-norelease", "bad", (PO, "        maybeUnmanagedChunk.value().releaseToSharedChunk();\n", "        if (!getMembers()->m_queue.empty()) { maybeUnmanagedChunk.value().releaseToSharedChunk(); }\n"))
m("P09", "relall", "bad", (RC, "    this->clear();\n", ""))
m("P09", "get-ok", "bad", (RC, "        if (getMembers()->m_chunksInUse.insert(sharedChunk))", "        if (getMembers()->m_chunksInUse.insert(sharedChunk) || this->empty())"))
m("P09", "lost-noreset", "bad", (PO, "        getMembers()->m_queueHasLostChunks.store(false, std::memory_order_relaxed);\n", ""))
m("P09", "lost-exch", "ok", (PO, "    if (getMembers()->m_queueHasLostChunks.load(std::memory_order_relaxed))\n    {\n        getMembers()->m_queueHasLostChunks.store(false, std::memory_order_relaxed);\n        return true;\n    }\n    return false;", "    return getMembers()->m_queueHasLostChunks.exchange(false, std::memory_order_relaxed);"))
m("P09", "get-early", "ok", (RC, "    if (popRet.has_value())\n    {\n        auto sharedChunk = *popRet;", "    if (!popRet.has_value())\n    {\n        return err(ChunkReceiveResult::NO_CHUNK_AVAILABLE);\n    }\n    {\n        auto& sharedChunk = popRet.value();"))
m("P09", "clear-for", "ok", (PO, "    while (auto maybeUnmanagedChunk = getMembers()->m_queue.pop())\n    {", "    for (;;)\n    {\n        auto maybeUnmanagedChunk = getMembers()->m_queue.pop();\n        if (!maybeUnmanagedChunk.has_value())\n        {\n            break;\n        }"))
m("P10", "nolock-add", "bad", (DI, "        for (auto i = startIndex; i < currChunkHistorySize; ++i)", "XX")) if False else None
m("P10", "lost-always", "bad", (DI, "                if (isBlockingQueue)\n                {\n                    fullQueuesAwaitingDelivery", "                if (isBlockingQueue && fullQueuesAwaitingDelivery.empty())\n                {\n                    fullQueuesAwaitingDelivery"))
m("P10", "history-off", "bad", (DI, "(requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;", "(requestedHistory < currChunkHistorySize) ? currChunkHistorySize - requestedHistory - 1u : 0u;"))
m("P10", "history-lt", "ok", (DI, "(requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;", "(requestedHistory < currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;"))
m("P10", "history-min", "ok", (DI, "            const auto startIndex =\n                (requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;", "            uint64_t startIndex = 0U;\n            if (requestedHistory <= currChunkHistorySize)\n            {\n                startIndex = currChunkHistorySize - requestedHistory;\n            }"))
m("P10", "evict-norel", "bad", (DI, "            chunkToRemove->releaseToSharedChunk();\n", ""))
m("P10", "evict-gt", "bad", (DI, "getMembers()->m_history.size() >= getMembers()->m_historyCapacity", "getMembers()->m_history.size() > getMembers()->m_historyCapacity"))
m("P10", "evict-eq", "ok", (DI, "getMembers()->m_history.size() >= getMembers()->m_historyCapacity", "getMembers()->m_history.size() == getMembers()->m_historyCapacity"))
m("P10", "fifo-push", "bad", (VQ, "        auto hadSpace = queue->tryPush(value);\n\n        return (hadSpace) ? nullopt : make_optional<ValueType>(value);", "        return queue->push(value);"))
m("P10", "clear-first", "bad", (DI, "    for (auto& unmanagedChunk : getMembers()->m_history)\n    {\n        unmanagedChunk.releaseToSharedChunk();\n    }\n\n    getMembers()->m_history.clear();", "    getMembers()->m_history.clear();"))
m("P10", "overflow-ok", "bad", (DI, "if (getMembers()->m_queues.size() < getMembers()->m_queues.capacity())", "if (getMembers()->m_queues.size() <= getMembers()->m_queues.capacity())"))
m("P10", "remaining-drop", "bad", (DI, "                    fullQueuesAwaitingDelivery.push_back(queue);\n", "                    if (remainingQueues.size() > 1U) { fullQueuesAwaitingDelivery.push_back(queue); }\n"))
m("P10", "one-retry", "bad", (DI, "            if (isBlockingQueue)\n            {\n                retry = true;", "            if (isBlockingQueue && lastKnownQueueIndex != 0U)\n            {\n                retry = true;"))
m("P10", "lostnot", "bad", (DI, "                    ++numberOfQueuesTheChunkWasDeliveredTo;\n                    ChunkQueuePusher_t(queue.get()).lostAChunk();", "                    ++numberOfQueuesTheChunkWasDeliveredTo;"))
m("P10", "early-unlock", "bad", (DI, "    bool retry{false};\n    do\n    {\n        typename MemberType_t::LockGuard_t lock(*getMembers());\n", "    bool retry{false};\n    do\n    {\n"))
m("P10", "push-noret", "bad", (PU, "        hasQueueOverflow = true;\n", "        hasQueueOverflow = getMembers()->m_queue.empty();\n"))
m("P10", "intersect", "bad", (DI, "            std::set_intersection(getMembers()->m_queues.begin(),\n                                  getMembers()->m_queues.end(),\n                                  fullQueuesAwaitingDelivery.begin(),\n                                  fullQueuesAwaitingDelivery.end(),\n                                  std::back_inserter(remainingQueues),\n                                  greaterThan);", "            for (auto& q : fullQueuesAwaitingDelivery) { remainingQueues.push_back(q); }"))
m("P10", "if-chain", "ok", (DI, "            if (pushToQueue(queue.get(), chunk))\n            {\n                ++numberOfQueuesTheChunkWasDeliveredTo;\n            }\n            else\n            {\n                if (isBlockingQueue)\n                {", "            if (pushToQueue(queue.get(), chunk))\n            {\n                ++numberOfQueuesTheChunkWasDeliveredTo;\n                continue;\n            }\n            {\n                if (isBlockingQueue)\n                {"))
m("P10", "block-late", "ok", (DI, "        bool isBlockingQueue = (willWaitForConsumer && queue->m_queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER);\n\n        retry = false;\n", "        retry = false;\n"), (DI, "            if (isBlockingQueue)\n            {\n                retry = true;", "            if (willWaitForConsumer && queue->m_queueFullPolicy == QueueFullPolicy::BLOCK_PRODUCER)\n            {\n                retry = true;"))
m("P10", "idx-loop", "ok", (DI, "    for (auto& unmanagedChunk : getMembers()->m_history)\n    {\n        unmanagedChunk.releaseToSharedChunk();\n    }", "    auto& history = getMembers()->m_history;\n    for (uint64_t i = 0U; i < history.size(); ++i)\n    {\n        history[i].releaseToSharedChunk();\n    }"))
m("P10", "idx-deliver", "ok", (DI, "        for (auto& queue : getMembers()->m_queues)\n        {\n            bool isBlockingQueue", "        auto& queues = getMembers()->m_queues;\n        for (uint64_t i = 0U; i < queues.size(); ++i)\n        {\n            auto& queue = queues[i];\n            bool isBlockingQueue"))
m("P10", "ret-direct", "ok", (PU, "    bool hasQueueOverflow = false;\n", "    const bool hasQueueOverflow = pushRet.has_value();\n"), (PU, "        hasQueueOverflow = true;\n", ""))
CL, CN = "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp"
m("P11", "post-first", "bad", (CN, "    getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);\n", ""), (CN, "        [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });\n", "        [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });\n    getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);\n"))
m("P11", "relaxed", "bad", (CN, "m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release)", "m_activeNotifications[m_notificationIndex].store(true, std::memory_order_relaxed)"))
m("P11", "skip-post", "bad", (CN, "    getMembers()->m_semaphore->post()", "    if (m_notificationIndex == 0U) { return; }\n    getMembers()->m_semaphore->post()"))
m("P11", "bound", "bad", (CN, "index >= MAX_NUMBER_OF_NOTIFIERS", "index > MAX_NUMBER_OF_NOTIFIERS"))
m("P11", "scan-short", "bad", (CL, "for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)", "for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS - 1U; i++)"))
m("P11", "scan-one", "bad", (CL, "                activeNotifications.emplace_back(i);\n", "                activeNotifications.emplace_back(i);\n                if (activeNotifications.size() > 100U) { return activeNotifications; }\n"))
m("P11", "wait-first", "bad", (CL, "        doReturnAfterNotificationCollection = !waitCall();\n", ""), (CL, "        // must happen before", "        doReturnAfterNotificationCollection = !waitCall();\n        // must happen before"))
m("P11", "drain-late", "bad", (CL, "        doReturnAfterNotificationCollection = !waitCall();\n", "        resetSemaphore();\n        doReturnAfterNotificationCollection = !waitCall();\n"))
m("P11", "destroy-order", "bad", (CL, "    m_toBeDestroyed.store(true, std::memory_order_relaxed);\n", ""), (CL, "SEMAPHORE_CORRUPTED_IN_DESTROY); });\n", "SEMAPHORE_CORRUPTED_IN_DESTROY); });\n    m_toBeDestroyed.store(true, std::memory_order_relaxed);\n"))
m("P11", "was-late", "bad", (CL, "        getMembers()->m_wasNotified.exchange(false, std::memory_order_acq_rel);\n", ""), (CL, "    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acq_rel);\n", "    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acq_rel);\n    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);\n"))
m("P11", "store", "bad", (CL, "m_activeNotifications[index].exchange(false, std::memory_order_acq_rel)", "m_activeNotifications[index].store(false, std::memory_order_release)"))
m("P11", "notify-before", "bad", (PU, "    auto pushRet = getMembers()->m_queue.push(chunk);\n", ""), (PU, "    bool hasQueueOverflow = false;\n", "    bool hasQueueOverflow = false;\n    {\n        typename MemberType_t::LockGuard_t lock(*getMembers());\n        if (getMembers()->m_conditionVariableDataPtr)\n        {\n            ConditionNotifier(*getMembers()->m_conditionVariableDataPtr.get(),\n                              *getMembers()->m_conditionVariableNotificationIndex)\n                .notify();\n        }\n    }\n    auto pushRet = getMembers()->m_queue.push(chunk);\n"))
m("P11", "notify-nooverflow", "bad", (PU, "        if (getMembers()->m_conditionVariableDataPtr)\n", "        if (!hasQueueOverflow && getMembers()->m_conditionVariableDataPtr)\n"))
m("P11", "unset-nolock", "bad", (PO, "inline void ChunkQueuePopper<ChunkQueueDataType>::unsetConditionVariable() noexcept\n{\n    typename MemberType_t::LockGuard_t lock(*getMembers());\n", "inline void ChunkQueuePopper<ChunkQueueDataType>::unsetConditionVariable() noexcept\n{\n"))
m("P11", "members-var", "ok", (CN, "    getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);\n", "    auto* const data = getMembers();\n    auto& flag = data->m_activeNotifications[m_notificationIndex];\n    flag.store(true, std::memory_order_release);\n"))
m("P11", "loop-u64", "ok", (CL, "for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)", "for (uint64_t i = 0U; i != MAX_NUMBER_OF_NOTIFIERS; ++i)"), (CL, "activeNotifications.emplace_back(i);", "activeNotifications.emplace_back(static_cast<Type_t>(i));"))
m("P11", "xchg-cond", "ok", (CL, "if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))", "if (getMembers()->m_activeNotifications[i].exchange(false, std::memory_order_acq_rel))"), (CL, "                resetUnchecked(i);\n", ""))
m("P11", "early-ret", "ok", (PU, "        if (getMembers()->m_conditionVariableDataPtr)\n        {\n            ConditionNotifier(*getMembers()->m_conditionVariableDataPtr.get(),", "        auto* const conditionVariableData = getMembers()->m_conditionVariableDataPtr.get();\n        if (conditionVariableData != nullptr)\n        {\n            ConditionNotifier(*conditionVariableData,"))
m("P11", "while-true", "ok", (CL, "    while (!m_toBeDestroyed.load(std::memory_order_relaxed))\n    {\n", "    while (true)\n    {\n        if (m_toBeDestroyed.load(std::memory_order_relaxed))\n        {\n            break;\n        }\n"))
TG, TH, LI, WS, LS = "iceoryx_posh/source/popo/trigger.cpp", "iceoryx_posh/source/popo/trigger_handle.cpp", "iceoryx_posh/source/popo/listener.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl"
BSU, BCL, BSE, C2C = "iceoryx_posh/include/iceoryx_posh/internal/popo/base_subscriber.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/base_client.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/base_server.inl", "iceoryx_binding_c/source/cpp2c_subscriber.cpp"
m("P12", "t-invalidate-first", "bad", (TG, "    m_resetCallback(m_uniqueId);\n\n    invalidate();", "    invalidate();\n    m_resetCallback(m_uniqueId);"))
m("P12", "t-move-nohash", "bad", (TG, "        m_originTriggerTypeHash = rhs.m_originTriggerTypeHash;\n", ""))
m("P12", "t-move-noinv", "bad", (TG, "    , m_originTriggerTypeHash{rhs.m_originTriggerTypeHash}\n{\n    rhs.invalidate();\n", "    , m_originTriggerTypeHash{rhs.m_originTriggerTypeHash}\n{\n"))
m("P12", "t-assign-noreset", "bad", (TG, "        reset();\n\n        // NotificationInfo", "        // NotificationInfo"))
m("P12", "t-equal-nohash", "bad", (TG, " && m_originTriggerTypeHash == originTriggerTypeHash;", ";"))
m("P12", "t-noid", "bad", (TG, "    m_uniqueId = INVALID_TRIGGER_ID;\n", ""))
m("P12", "h-nolock-trigger", "bad", (TH, "void TriggerHandle::trigger() noexcept\n{\n    std::lock_guard<std::recursive_mutex> lock(m_mutex);\n", "void TriggerHandle::trigger() noexcept\n{\n"))
m("P12", "h-reset-norhs", "bad", (TH, "        rhs.invalidate();\n    }\n\n    return *this;", "    }\n\n    return *this;"))
m("P12", "h-was-nolock", "bad", (TH, "bool TriggerHandle::wasTriggered() const noexcept\n{\n    std::lock_guard<std::recursive_mutex> lock(m_mutex);\n", "bool TriggerHandle::wasTriggered() const noexcept\n{\n"))
m("P12", "l-remove-order", "bad", (LI, "    if (m_events[index]->reset())\n    {\n        m_indexManager.push(static_cast<uint32_t>(index));\n    }", "    if (m_events[index]->isInitialized())\n    {\n        m_indexManager.push(static_cast<uint32_t>(index));\n        m_events[index]->reset();\n    }"))
m("P12", "l-remove-always", "bad", (LI, "    if (m_events[index]->reset())\n", "    m_events[index]->reset();\n"))
m("P12", "l-bound", "bad", (LI, "if (index >= MAX_NUMBER_OF_EVENTS)", "if (index > MAX_NUMBER_OF_EVENTS)"))
m("P12", "l-event-noreset-origin", "bad", (LI, "        m_origin = nullptr;\n", ""))
m("P12", "l-dtor-order", "bad", (LI, "    m_thread.join();\n    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_relaxed);", "    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_relaxed);\n    m_thread.join();"))
m("P12", "l-exec-nocheck", "bad", (LI, "    if (!isInitialized())\n    {\n        return;\n    }\n\n    m_translation", "    m_translation"))
m("P12", "l-add-nolock", "bad", (LS, "    std::lock_guard<std::mutex> lock(m_addEventMutex);\n", ""))
m("P12", "l-add-scan", "bad", (LS, "for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS; ++i)", "for (uint32_t i = 0U; i < m_indexManager.indicesInUse(); ++i)"))
m("P12", "l-add-pop-first", "bad", (LS, "\n    uint32_t index = 0U;\n    if (!m_indexManager.pop(index))\n    {\n        return err(ListenerError::LISTENER_FULL);\n    }\n\n    m_events", "\n    m_events"), (LS, "    for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS; ++i)", "    uint32_t index = 0U;\n    if (!m_indexManager.pop(index))\n    {\n        return err(ListenerError::LISTENER_FULL);\n    }\n    for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS; ++i)"))
m("P12", "w-reset", "bad", (WS, "            trigger->invalidate();\n            trigger.reset();", "            trigger->invalidate();"))
m("P12", "w-noinvalidate", "bad", (WS, "            trigger->invalidate();\n            trigger.reset();", "            trigger.reset();"))
m("P12", "w-state-nonotify", "bad", (WS, "            if (trigger->isStateConditionSatisfied())\n            {\n                ConditionNotifier(*m_conditionVariableDataPtr, uniqueId).notify();\n            }\n", "            static_cast<void>(trigger);\n"))
m("P12", "w-erase-all", "bad", (WS, "doRemoveNotificationId = (trigger->getTriggerType() == TriggerType::EVENT_BASED);", "doRemoveNotificationId = true;"))
m("P12", "w-erase-unsat", "bad", (WS, "            bool doRemoveNotificationId = !static_cast<bool>(trigger);", "            bool doRemoveNotificationId = !static_cast<bool>(trigger) || !trigger->isStateConditionSatisfied();"))
m("P12", "w-acq-replace", "bad", (WS, "    if (m_activeNotifications.empty())\n    {\n        m_activeNotifications = notificationVector;\n    }\n    else if (!notificationVector.empty())", "    if (m_activeNotifications.size() <= notificationVector.size())\n    {\n        m_activeNotifications = notificationVector;\n    }\n    else if (!notificationVector.empty())"))
m("P12", "w-merge-tail", "bad", (WS, "    while (indexV1 < v1Size)\n    {\n        IOX_DISCARD_RESULT(mergedVector.emplace_back(v1[indexV1++]));\n    }\n", ""))
m("P12", "w-merge-skip", "bad", (WS, "            IOX_DISCARD_RESULT(mergedVector.emplace_back(v2[indexV2]));\n            ++indexV2;", "            IOX_DISCARD_RESULT(mergedVector.emplace_back(v2[indexV2]));\n            ++indexV2;\n            ++indexV1;"))
m("P12", "w-nowas", "bad", (WS, "    if (m_conditionListener.wasNotified())\n    {\n        this->acquireNotifications(wait);\n    }\n", ""))
m("P12", "w-id", "bad", (WS, "            NotificationAttorney::enableEvent(\n                eventOrigin, TriggerHandle(*m_conditionVariableDataPtr, {*this, &WaitSet::removeTrigger}, uniqueId));", "            NotificationAttorney::enableEvent(\n                eventOrigin, TriggerHandle(*m_conditionVariableDataPtr, {*this, &WaitSet::removeTrigger}, eventId));"))
m("P12", "e-nounset", "bad", (BCL, "        m_trigger.reset();\n        m_port.unsetConditionVariable();\n        break;", "        m_trigger.reset();\n        break;"))
m("P12", "e-inv-all", "bad", (BSE, "    if (m_trigger.getUniqueId() == uniqueTriggerId)\n", "    if (m_trigger)\n"))
m("P12", "e-order", "bad", (BSU, "        m_trigger = std::move(triggerHandle);\n        m_port.setConditionVariable(*m_trigger.getConditionVariableData(), m_trigger.getUniqueId());\n", "        m_port.setConditionVariable(*triggerHandle.getConditionVariableData(), triggerHandle.getUniqueId());\n        m_trigger = std::move(triggerHandle);\n"))
m("P12", "w-find-helper", "ok", (WS, "    for (auto& trigger : m_triggerArray)\n    {\n        if (trigger.has_value() && trigger->getUniqueId() == uniqueTriggerId)\n        {", "    for (uint64_t i = 0; i < Capacity; ++i)\n    {\n        auto& trigger = m_triggerArray[i];\n        if (!trigger.has_value())\n        {\n            continue;\n        }\n        if (uniqueTriggerId == trigger->getUniqueId())\n        {"))
m("P12", "l-loop-index", "ok", (LI, "        for (auto& id : activateNotificationIds)\n        {\n            m_events[id]->executeCallback();\n        }", "        for (uint64_t i = 0; i < activateNotificationIds.size(); ++i)\n        {\n            m_events[activateNotificationIds[i]]->executeCallback();\n        }"))
m("P12", "t-assign-early", "ok", (TG, "    if (this != &rhs)\n    {\n        reset();", "    if (this == &rhs)\n    {\n        return *this;\n    }\n    {\n        reset();"))
m("P12", "h-reset-nested", "ok", (TH, "    if (!isValid())\n    {\n        return;\n    }\n\n    m_resetCallback(m_uniqueTriggerId);\n\n    invalidate();", "    if (m_conditionVariableDataPtr != nullptr)\n    {\n        const auto id = m_uniqueTriggerId;\n        m_resetCallback(id);\n        invalidate();\n    }"))
m("P12", "l-remove-var", "ok", (LI, "    if (m_events[index]->reset())\n", "    const bool wasAttached = m_events[index]->reset();\n    if (wasAttached)\n"))
m("P12", "w-wait-helper", "ok", (WS, "    NotificationInfoVector triggers = createVectorWithTriggeredTriggers();\n\n    if (!triggers.empty())\n    {\n        return triggers;\n    }\n\n    acquireNotifications(wait);\n    return createVectorWithTriggeredTriggers();", "    NotificationInfoVector triggers = createVectorWithTriggeredTriggers();\n    if (triggers.empty())\n    {\n        acquireNotifications(wait);\n        triggers = createVectorWithTriggeredTriggers();\n    }\n    return triggers;"))
m("P12", "w-create-else", "ok", (WS, "            bool doRemoveNotificationId = !static_cast<bool>(trigger);\n\n            if (!doRemoveNotificationId && trigger->isStateConditionSatisfied())\n", "            bool doRemoveNotificationId = false;\n            if (!trigger.has_value())\n            {\n                doRemoveNotificationId = true;\n            }\n            else if (trigger->isStateConditionSatisfied())\n"))
m("P12", "e-if", "ok", (BCL, "    switch (clientState)\n    {\n    case ClientState::HAS_RESPONSE:\n        m_trigger.reset();\n        m_port.unsetConditionVariable();\n        break;\n    }", "    if (clientState == ClientState::HAS_RESPONSE)\n    {\n        m_trigger.reset();\n        m_port.unsetConditionVariable();\n    }"))
m("P12", "l-add-helper", "ok", (LS, "    for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS; ++i)\n    {\n        if (m_events[i]->isEqualTo(origin, eventType, eventTypeHash))\n        {\n            return err(ListenerError::EVENT_ALREADY_ATTACHED);\n        }\n    }\n", "    bool attached = false;\n    for (uint32_t i = 0U; i < MAX_NUMBER_OF_EVENTS && !attached; ++i)\n    {\n        attached = m_events[i]->isEqualTo(origin, eventType, eventTypeHash);\n    }\n    if (attached)\n    {\n        return err(ListenerError::EVENT_ALREADY_ATTACHED);\n    }\n"))
PT = "iceoryx_posh/source/popo/ports/"
m("P13", "pub-noremove", "bad", (PT + "publisher_port_roudi.cpp", "        m_chunkSender.removeAllQueues();\n", ""))
m("P13", "pub-ack-always", "bad", (PT + "publisher_port_roudi.cpp", "            if (!ret.has_error())\n            {\n                responseMessage.m_type = capro::CaproMessageType::ACK;\n            }\n        }\n        else if", "            static_cast<void>(ret);\n            responseMessage.m_type = capro::CaproMessageType::ACK;\n        }\n        else if"))
m("P13", "pub-hist0", "bad", (PT + "publisher_port_roudi.cpp", "                caProMessage.m_historyCapacity);", "                0U);"))
m("P13", "subn-noresub", "bad", (PT + "subscriber_port_multi_producer.cpp", "        caproMessage.m_historyCapacity = getMembers()->m_options.historyRequest;\n\n        return make_optional<capro::CaproMessage>(caproMessage);\n    }\n    else if (!currentSubscribeRequest", "        return make_optional<capro::CaproMessage>(caproMessage);\n    }\n    else if (!currentSubscribeRequest"))
m("P13", "sub1-nack-stay", "bad", (PT + "subscriber_port_single_producer.cpp", "            getMembers()->m_subscriptionState.store(SubscribeState::WAIT_FOR_OFFER, std::memory_order_relaxed);\n        }\n        else if (SubscribeState::UNSUBSCRIBE_REQUESTED", "            getMembers()->m_subscriptionState.store(SubscribeState::NOT_SUBSCRIBED, std::memory_order_relaxed);\n        }\n        else if (SubscribeState::UNSUBSCRIBE_REQUESTED"))
m("P13", "cli-stop-noremove", "bad", (PT + "client_port_roudi.cpp", "        getMembers()->m_connectionState.store(ConnectionState::WAIT_FOR_OFFER, std::memory_order_relaxed);\n        m_chunkSender.removeAllQueues();\n", "        getMembers()->m_connectionState.store(ConnectionState::WAIT_FOR_OFFER, std::memory_order_relaxed);\n"))
m("P13", "srv-ack-noqueue", "bad", (PT + "server_port_roudi.cpp", "                    responseMessage.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n", ""))
m("P13", "sub-noclear", "bad", (PT + "subscriber_port_user.cpp", "        m_chunkReceiver.clear();\n\n        getMembers()", "        getMembers()"))
m("P13", "srv-rel", "bad", (PT + "server_port_roudi.cpp", "    m_chunkSender.releaseAll();\n    m_chunkReceiver.releaseAll();", "    m_chunkReceiver.releaseAll();"))
m("P13", "cli-data-swap", "bad", (PT + "client_port_data.cpp", "policy == QueueFullPolicy::DISCARD_OLDEST_DATA ?", "policy != QueueFullPolicy::DISCARD_OLDEST_DATA ?"))
m("P13", "pub-if", "ok", (PT + "publisher_port_user.cpp", "    if (!getMembers()->m_offeringRequested.load(std::memory_order_relaxed))\n    {\n        getMembers()->m_offeringRequested.store(true, std::memory_order_relaxed);\n    }", "    getMembers()->m_offeringRequested.store(true, std::memory_order_relaxed);"))
m("P13", "cli-switch", "ok", (PT + "client_port_roudi.cpp", "    switch (currentConnectionState)\n    {\n    case ConnectionState::NOT_CONNECTED:\n        if (currentConnectRequest)", "    if (currentConnectRequest && currentConnectionState == ConnectionState::CONNECTED)\n    {\n        return nullopt;\n    }\n    switch (currentConnectionState)\n    {\n    case ConnectionState::NOT_CONNECTED:\n        if (currentConnectRequest)"))
m("P13", "srv-order", "ok", (PT + "server_port_roudi.cpp", "        getMembers()->m_offered.store(false, std::memory_order_relaxed);\n        m_chunkSender.removeAllQueues();\n", "        m_chunkSender.removeAllQueues();\n        getMembers()->m_offered.store(false, std::memory_order_relaxed);\n"))
m("P13", "srv-ifelse", "ok", (PT + "server_port_roudi.cpp", "                .and_then([this, &responseMessage]() {\n                    responseMessage.m_type = capro::CaproMessageType::ACK;\n                    responseMessage.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n                    responseMessage.m_historyCapacity = 0;\n                });", "                .and_then([this, &responseMessage]() {\n                    capro::CaproMessage ack{capro::CaproMessageType::ACK, this->getCaProServiceDescription()};\n                    ack.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n                    responseMessage = ack;\n                });"))
m("P13", "subn-helper", "ok", (PT + "subscriber_port_multi_producer.cpp", "        capro::CaproMessage caproMessage(capro::CaproMessageType::SUB, BasePort::getMembers()->m_serviceDescription);\n        caproMessage.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n        caproMessage.m_historyCapacity = getMembers()->m_options.historyRequest;\n\n        return make_optional<capro::CaproMessage>(caproMessage);\n    }\n    else if (!current", "        auto build = [&]() {\n            capro::CaproMessage msg(capro::CaproMessageType::SUB, BasePort::getMembers()->m_serviceDescription);\n            msg.m_historyCapacity = getMembers()->m_options.historyRequest;\n            msg.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n            return msg;\n        };\n        return optional<capro::CaproMessage>(build());\n    }\n    else if (!current"))
m("P13", "pool-swap", "bad", ("iceoryx_posh/include/iceoryx_posh/roudi/port_pool.inl", "(subscriberOptions.queueFullPolicy == popo::QueueFullPolicy::DISCARD_OLDEST_DATA)", "(subscriberOptions.queueFullPolicy != popo::QueueFullPolicy::DISCARD_OLDEST_DATA)"))
CU, SU, RH = PT + "client_port_user.cpp", PT + "server_port_user.cpp", POPO + "rpc_header.cpp" if "POPO" in globals() else "iceoryx_posh/source/popo/rpc_header.cpp"
m("P14", "id", "bad", (CU, "getMembers()->m_chunkReceiverData.m_uniqueId, RpcBaseHeader", "getMembers()->m_chunkReceiverData.m_uniqueId, RpcBaseHeader")) if False else None
m("P14", "seq", "bad", (SU, "requestHeader->getSequenceId());", "RpcBaseHeader::START_SEQUENCE_ID);"))
m("P14", "noconn-leak", "bad", (CU, "        releaseRequest(requestHeader);\n        IOX_LOG(Warn, \"Try to send request without", "        IOX_LOG(Warn, \"Try to send request without"))
m("P14", "notfound-leak", "bad", (SU, "        .or_else([&] { releaseResponse(responseHeader); });", "        .or_else([&] {});"))
m("P14", "double-rel", "bad", (SU, "    if (!responseSent)\n    {\n", "    if (!responseSent)\n    {\n        releaseResponse(responseHeader);\n"))
m("P14", "ignore-sent", "bad", (SU, "            responseSent = m_chunkSender.sendToQueue(", "            responseSent = true; m_chunkSender.sendToQueue("))
m("P14", "get-notoffered", "bad", (SU, "    if (getChunkResult.has_error())\n    {\n        if (!isOffered())", "    if (getChunkResult.has_error() || !isOffered())\n    {\n        if (!isOffered())"))
m("P14", "rel-side", "bad", (SU, "    if (requestHeader != nullptr)\n    {\n        m_chunkReceiver.release(requestHeader->getChunkHeader());", "    if (requestHeader != nullptr && isOffered())\n    {\n        m_chunkReceiver.release(requestHeader->getChunkHeader());"))
m("P14", "conn-state", "bad", (CU, "    if (!connectRequested)\n    {\n        releaseRequest", "    if (!connectRequested && getMembers()->m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)\n    {\n        releaseRequest"))
m("P14", "setseq", "bad", (RH, "this->m_sequenceId = sequenceId;", "if (sequenceId > this->m_sequenceId) { this->m_sequenceId = sequenceId; }"))
m("P14", "ok-ifelse", "ok", (SU, """    bool responseSent{false};
    m_chunkSender.getQueueIndex(responseHeader->m_uniqueClientQueueId, responseHeader->m_lastKnownClientQueueIndex)
        .and_then([&](auto queueIndex) {
            responseHeader->m_lastKnownClientQueueIndex = queueIndex;
            responseSent = m_chunkSender.sendToQueue(
                responseHeader->getChunkHeader(), responseHeader->m_uniqueClientQueueId, queueIndex);
        })
        .or_else([&] { releaseResponse(responseHeader); });

    if (!responseSent)
    {
""", """    auto queueIndex =
        m_chunkSender.getQueueIndex(responseHeader->m_uniqueClientQueueId, responseHeader->m_lastKnownClientQueueIndex);
    if (!queueIndex.has_value())
    {
        releaseResponse(responseHeader);
        return err(ServerSendError::CLIENT_NOT_AVAILABLE);
    }
    const auto id = responseHeader->m_uniqueClientQueueId;
    responseHeader->m_lastKnownClientQueueIndex = *queueIndex;
    if (!m_chunkSender.sendToQueue(responseHeader->getChunkHeader(), id, *queueIndex))
    {
"""))
m("P14", "ok-local", "ok", (CU, """    if (allocateResult.has_error())
    {
        return err(allocateResult.error());
    }

    auto* requestHeader = new (allocateResult.value()->userHeader())
        RequestHeader(getMembers()->m_chunkReceiverData.m_uniqueId, RpcBaseHeader::UNKNOWN_CLIENT_QUEUE_INDEX);

    return ok(requestHeader);
""", """    if (!allocateResult.has_error())
    {
        const auto& id = getMembers()->m_chunkReceiverData.m_uniqueId;
        auto* const mem = (*allocateResult)->userHeader();
        return ok(new (mem) RequestHeader(id, RpcBaseHeader::UNKNOWN_CLIENT_QUEUE_INDEX));
    }
    return err(allocateResult.error());
"""))
m("P14", "ok-early", "ok", (CU, """    if (requestHeader != nullptr)
    {
        m_chunkSender.release(requestHeader->getChunkHeader());
    }
    else
    {
        IOX_REPORT(PoshError::POPO__CLIENT_PORT_INVALID_REQUEST_TO_FREE_FROM_USER, iox::er::RUNTIME_ERROR);
    }
""", """    if (requestHeader == nullptr)
    {
        IOX_REPORT(PoshError::POPO__CLIENT_PORT_INVALID_REQUEST_TO_FREE_FROM_USER, iox::er::RUNTIME_ERROR);
        return;
    }
    auto* const chunk = requestHeader->getChunkHeader();
    m_chunkSender.release(chunk);
"""))
m("P14", "ok-send0", "ok", (CU, "    auto numberOfReceiver = m_chunkSender.send(requestHeader->getChunkHeader());\n    if (numberOfReceiver == 0U)\n", "    const bool delivered = m_chunkSender.send(requestHeader->getChunkHeader()) > 0U;\n    if (!delivered)\n"))
CD = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl"
m("P14", "qix-only-last", "bad", (CD, "    uint32_t index{0};\n    for (auto& queue : queues)", "    uint32_t index{0};\n    if (lastKnownQueueIndex != uint32_t(-1) && queues.size() > lastKnownQueueIndex) { return nullopt; }\n    for (auto& queue : queues)"))
m("P14", "qix-off", "bad", (CD, "            return index;\n", "            return index + 1U;\n"))
m("P14", "qix-id", "bad", (CD, "if (queues.size() > lastKnownQueueIndex && queues[lastKnownQueueIndex]->m_uniqueId == uniqueQueueId)", "if (queues.size() > lastKnownQueueIndex)"))
m("P14", "qix-ix", "ok", (CD, "    uint32_t index{0};\n    for (auto& queue : queues)\n    {\n        if (queue->m_uniqueId == uniqueQueueId)\n        {\n            return index;\n        }\n        ++index;\n    }\n", "    for (uint32_t index{0}; index < queues.size(); ++index)\n    {\n        if (queues[index]->m_uniqueId == uniqueQueueId)\n        {\n            return index;\n        }\n    }\n"))
PI = "iceoryx_posh/include/iceoryx_posh/internal/popo/"
UPI = "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl"
m("P15", "up-assign-noself", "bad", (UPI, "    if (this != &rhs)\n    {\n        destroy();\n", "    {\n        destroy();\n"))
m("P15", "up-assign-leak", "bad", (UPI, "        destroy();\n        m_ptr = rhs.m_ptr;", "        if (rhs.m_ptr != nullptr) { destroy(); }\n        m_ptr = rhs.m_ptr;"))
m("P15", "up-assign-deleter", "bad", (UPI, "        destroy();\n        m_ptr = rhs.m_ptr;\n        m_deleter = std::move(rhs.m_deleter);", "        m_deleter = std::move(rhs.m_deleter);\n        destroy();\n        m_ptr = rhs.m_ptr;"))
m("P15", "up-move-keep", "bad", (UPI, "    , m_deleter{std::move(rhs.m_deleter)}\n{\n    rhs.m_ptr = nullptr;\n}", "    , m_deleter{std::move(rhs.m_deleter)}\n{\n}"))
m("P15", "up-swap", "bad", (UPI, "    std::swap(m_deleter, other.m_deleter);\n", ""))
m("P15", "align", "bad", (PI + "client_impl.inl", "allocateRequest(sizeof(Req), alignof(Req))", "allocateRequest(sizeof(Req), alignof(uint32_t))"))
m("P15", "res-size", "bad", (PI + "server_impl.inl", "allocateResponse(requestHeader, sizeof(Res), alignof(Res))", "allocateResponse(requestHeader, sizeof(Req), alignof(Res))"))
m("P15", "del-side", "bad", (PI + "server_impl.inl", "            auto* responseHeader = iox::popo::ResponseHeader::fromPayload(payload);\n            this->port().releaseResponse(responseHeader);", "XX")) if False else None
m("P15", "chunk-keep", "bad", (PI + "smart_chunk.inl", "    m_members.smartChunkUniquePtr.reset();\n", ""))
m("P15", "publish-noinit", "bad", (PI + "publisher_impl.inl", "        new (sample.get()) T(val); // Placement new copy-construction of sample, avoid copy-assigment because there\n", "        sample.publish();\n        return;\n        new (sample.get()) T(val); // Placement new copy-construction of sample, avoid copy-assigment because there\n"))
m("P15", "user-header", "bad", (PI + "publisher_impl.inl", "{std::is_same<H, mepoo::NoUserHeader>::value ? 0U : sizeof(H)}", "{std::is_same<H, mepoo::NoUserHeader>::value ? 0U : alignof(H)}"))
m("P15", "untyped-client-null", "bad", (PI + "untyped_client_impl.inl", "    if (chunkHeader == nullptr)\n    {\n        return err(ClientSendError::INVALID_REQUEST);\n    }\n", "    if (chunkHeader == nullptr)\n    {\n        return ok();\n    }\n"))
m("P15", "untyped-take", "bad", (PI + "untyped_subscriber_impl.inl", "    return ok(result.value()->userPayload());", "    return ok(result.value()->userHeader());"))
m("P15", "ok-convert", "ok", (PI + "publisher_impl.inl", "    auto result = port().tryAllocateChunk(sizeof(T), alignof(T), USER_HEADER_SIZE, alignof(H));\n    if (result.has_error())\n    {\n        return err(result.error());\n    }\n    else\n    {\n        return ok(convertChunkHeaderToSample(result.value()));\n    }", "    auto result = port().tryAllocateChunk(sizeof(T), alignof(T), USER_HEADER_SIZE, alignof(H));\n    if (!result.has_error())\n    {\n        auto sample = convertChunkHeaderToSample(result.value());\n        return ok(std::move(sample));\n    }\n    return err(result.error());"))
m("P15", "ok-publish", "ok", (PI + "publisher_impl.inl", "    auto userPayload = sample.release(); // release the Samples ownership of the chunk before publishing\n    auto chunkHeader = mepoo::ChunkHeader::fromUserPayload(userPayload);\n    port().sendChunk(chunkHeader);", "    T* const payload = sample.release();\n    port().sendChunk(mepoo::ChunkHeader::fromUserPayload(payload));"))
m("P15", "ok-copy", "ok", (PI + "publisher_impl.inl", "    return loanSample().and_then([&](auto& sample) {\n        new (sample.get()) T(val); // Placement new copy-construction of sample, avoid copy-assigment because there\n", "    auto loaned = loanSample();\n    if (loaned.has_error())\n    {\n        return err(loaned.error());\n    }\n    new (loaned->get()) T(val);\n    loaned->publish();\n    return ok();\n    return loanSample().and_then([&](auto& sample) {\n        new (sample.get()) T(val); // Placement new copy-construction of sample, avoid copy-assigment because there\n"))
m("P15", "ok-take", "ok", (PI + "client_impl.inl", "    auto responseHeader = result.value();\n    auto payload = mepoo::ChunkHeader::fromUserHeader(responseHeader)->userPayload();\n    auto response", "    const auto* const payload = mepoo::ChunkHeader::fromUserHeader(result.value())->userPayload();\n    auto response"))
m("P15", "ok-deleter", "ok", (PI + "subscriber_impl.inl", "        auto* chunkHeader = iox::mepoo::ChunkHeader::fromUserPayload(userPayload);\n        this->port().releaseChunk(chunkHeader);", "        auto& p = this->port();\n        p.releaseChunk(iox::mepoo::ChunkHeader::fromUserPayload(userPayload));"))
m("P15", "ok-up", "ok", (UPI, "    if (this != &rhs)\n    {\n        destroy();\n        m_ptr = rhs.m_ptr;\n        m_deleter = std::move(rhs.m_deleter);\n        rhs.m_ptr = nullptr;\n    }\n    return *this;", "    if (this == &rhs)\n    {\n        return *this;\n    }\n    destroy();\n    m_deleter = std::move(rhs.m_deleter);\n    m_ptr = rhs.m_ptr;\n    rhs.m_ptr = nullptr;\n    return *this;"))
m("P15", "ok-release", "ok", (UPI, "    auto owned = std::move(ptrToBeReleased);\n    auto* const ptr{owned.m_ptr};\n    owned.m_ptr = nullptr;\n    return ptr;", "    auto* const ptr = ptrToBeReleased.m_ptr;\n    ptrToBeReleased.m_ptr = nullptr;\n    return ptr;"))
PMG = "iceoryx_posh/source/roudi/port_manager.cpp"
PCM = "iceoryx_posh/source/roudi/process_manager.cpp"
PPL = "iceoryx_posh/source/roudi/port_pool.cpp"
m("P16", "use-after", "bad", (PMG, "        auto currentPort = serverPort++;\n        popo::ServerPortRouDi server(*currentPort);\n        if (runtimeName == server.getRuntimeName())\n        {\n            destroyServerPort(currentPort.to_ptr());\n        }", "        popo::ServerPortRouDi server(*serverPort);\n        if (runtimeName == server.getRuntimeName())\n        {\n            destroyServerPort(serverPort.to_ptr());\n        }\n        serverPort++;"))
m("P16", "first-only", "bad", (PMG, "            destroyClientPort(currentPort.to_ptr());\n        }\n    }\n\n    auto& interfacePortDataPool", "            destroyClientPort(currentPort.to_ptr());\n            break;\n        }\n    }\n\n    auto& interfacePortDataPool"))
m("P16", "no-condvars", "bad", (PMG, "        if (runtimeName == currentCondVar->m_runtimeName)\n", "        if (runtimeName == currentCondVar->m_runtimeName && currentCondVar->m_toBeDestroyed.load())\n"))
m("P16", "wrong-cond", "bad", (PMG, "        if (runtimeName == interfacePort.getRuntimeName())\n", "        if (runtimeName != interfacePort.getRuntimeName())\n"))
m("P16", "no-release", "bad", (PMG, "    publisherPortRoudi.releaseAllChunks();\n\n    m_portIntrospection.removePublisher", "    m_portIntrospection.removePublisher"))
m("P16", "no-registry", "bad", (PMG, "        m_portIntrospection.reportMessage(caproMessage);\n        this->removePublisherFromServiceRegistry(caproMessage.m_serviceDescription);\n        this->sendToAllMatchingSubscriberPorts(caproMessage, publisherPortRoudi);\n", "        m_portIntrospection.reportMessage(caproMessage);\n        this->sendToAllMatchingSubscriberPorts(caproMessage, publisherPortRoudi);\n"))
m("P16", "unblock-noserver", "bad", (PMG, "            port.m_offeringRequested.store(false, std::memory_order_relaxed);\n            doDiscoveryForServerPort(serverPort);\n", "            port.m_offeringRequested.store(false, std::memory_order_relaxed);\n"))
m("P16", "heartbeat-leak", "bad", (PCM, "            m_heartbeatPool->erase(heartbeatIter);\n", ""))
m("P16", "forget-first", "bad", (PCM, "        m_portManager.deletePortsOfProcess(processIter->getName());\n        m_processIntrospection", "        if (feedback == TerminationFeedback::SEND_ACK_TO_PROCESS) { m_portManager.deletePortsOfProcess(processIter->getName()); }\n        m_processIntrospection"))
m("P16", "monitor-erase", "bad", (PCM, "            if (!removed)\n            {", "            if (removed)\n            {"))
m("P16", "monitor-late", "bad", (PCM, "        auto currentHeartbeatIterator = heartbeatIterator++;\n        auto elapsedMilliseconds = currentHeartbeatIterator->elapsed_milliseconds_since_last_beat();\n        if (elapsedMilliseconds > timeout)", "        auto currentHeartbeatIterator = heartbeatIterator++;\n        auto elapsedMilliseconds = currentHeartbeatIterator->elapsed_milliseconds_since_last_beat();\n        if (elapsedMilliseconds > timeout && m_processList.size() > 1U)"))
m("P16", "register-noremove", "bad", (PCM, "            if (!this->searchForProcessAndRemoveIt(name, TERMINATION_FEEDBACK))\n            {\n                IOX_LOG(Warn, \"Application \" << name << \" could not be removed\");\n                return;\n            }\n            else", "            if (process->isMonitored() && !this->searchForProcessAndRemoveIt(name, TERMINATION_FEEDBACK))\n            {\n                IOX_LOG(Warn, \"Application \" << name << \" could not be removed\");\n                return;\n            }\n            else"))
m("P16", "iface-nocontinue", "bad", (PMG, "            m_portPool->removeInterfacePort(currentPort.to_ptr());\n            continue;\n", "            m_portPool->removeInterfacePort(currentPort.to_ptr());\n"))
m("P16", "handle-skip", "bad", (PMG, "        doDiscoveryForSubscriberPort(subscriberPort);\n\n        // check", "        if (!subscriberPort.toBeDestroyed()) { continue; }\n        doDiscoveryForSubscriberPort(subscriberPort);\n\n        // check"))
m("P16", "prepare-order", "bad", (PCM, "            m_portManager.unblockProcessShutdown(name);\n", "")) 
m("P16", "pool-wrong", "bad", (PPL, "void PortPool::removeClientPort(const popo::ClientPortData* const portData) noexcept\n{\n    m_portPoolData->m_clientPortMembers.erase(portData);", "void PortPool::removeClientPort(const popo::ClientPortData* const portData) noexcept\n{\n    if (!portData->m_toBeDestroyed) { return; }\n    m_portPoolData->m_clientPortMembers.erase(portData);"))
m("P16", "ok-helper", "ok", (PMG, "        if (runtimeName == server.getRuntimeName())\n        {\n            destroyServerPort(currentPort.to_ptr());\n        }", "        if (!(server.getRuntimeName() == runtimeName))\n        {\n            continue;\n        }\n        auto* const dying = currentPort.to_ptr();\n        destroyServerPort(dying);"))
m("P16", "ok-order", "ok", (PMG, "        this->removePublisherFromServiceRegistry(caproMessage.m_serviceDescription);\n        this->sendToAllMatchingSubscriberPorts(caproMessage, publisherPortRoudi);\n        this->sendToAllMatchingInterfacePorts(caproMessage);\n    });\n\n    publisherPortRoudi.release", "        this->sendToAllMatchingSubscriberPorts(caproMessage, publisherPortRoudi);\n        this->sendToAllMatchingInterfacePorts(caproMessage);\n        this->removePublisherFromServiceRegistry(caproMessage.m_serviceDescription);\n    });\n\n    publisherPortRoudi.release"))
m("P16", "ok-for", "ok", (PCM, "    auto it = m_processList.begin();\n    while (it != m_processList.end())\n    {\n        auto otherName = it->getName();\n        if (name == otherName)\n        {\n            if (removeProcessAndDeleteRespectiveSharedMemoryObjects(it, feedback))\n            {\n                IOX_LOG(Debug, \"Removed existing application \" << name);\n            }\n            return true; // we can assume there are no other processes with this name\n        }\n        ++it;\n    }", "    for (auto it = m_processList.begin(); it != m_processList.end(); ++it)\n    {\n        if (it->getName() != name)\n        {\n            continue;\n        }\n        if (removeProcessAndDeleteRespectiveSharedMemoryObjects(it, feedback))\n        {\n            IOX_LOG(Debug, \"Removed existing application \" << name);\n        }\n        return true;\n    }"))
m("P16", "ok-monitor", "ok", (PCM, "            auto processIterator = m_processList.begin();\n            while (processIterator != m_processList.end())\n            {\n                if (processIterator->getHeartbeatPoolIndex() != currentHeartbeatIterator.to_index())\n                {\n                    ++processIterator;\n                    continue;\n                }\n", "            const auto overdue = currentHeartbeatIterator.to_index();\n            for (auto processIterator = m_processList.begin(); processIterator != m_processList.end(); ++processIterator)\n            {\n                if (processIterator->getHeartbeatPoolIndex() != overdue)\n                {\n                    continue;\n                }\n"))
m("P16", "ok-register", "ok", (PCM, "            if (!this->searchForProcessAndRemoveIt(name, TERMINATION_FEEDBACK))\n            {\n                IOX_LOG(Warn, \"Application \" << name << \" could not be removed\");\n                return;\n            }\n            else\n            {\n                // try registration again, should succeed since removal was successful\n                returnValue =\n                    this->addProcess(name, pid, user, isMonitored, transmissionTimestamp, sessionId, versionInfo);\n            }", "            const bool gone = this->searchForProcessAndRemoveIt(name, TERMINATION_FEEDBACK);\n            if (gone)\n            {\n                returnValue =\n                    this->addProcess(name, pid, user, isMonitored, transmissionTimestamp, sessionId, versionInfo);\n                return;\n            }\n            IOX_LOG(Warn, \"Application \" << name << \" could not be removed\");"))
SRG = "iceoryx_posh/source/roudi/service_registry.cpp"
m("P17", "hist", "bad", (PMG, "!subOpts.requiresPublisherHistorySupport || pubOpts.historyCapacity > 0;", "!subOpts.requiresPublisherHistorySupport || pubOpts.historyCapacity > 1;"))
m("P17", "hist-req", "bad", (PMG, "!subOpts.requiresPublisherHistorySupport || pubOpts.historyCapacity > 0;", "subOpts.historyRequest == 0U || pubOpts.historyCapacity > 0;"))
m("P17", "block", "bad", (PMG, "          && subOpts.queueFullPolicy == popo::QueueFullPolicy::BLOCK_PRODUCER);", "          && subOpts.queueFullPolicy == popo::QueueFullPolicy::DISCARD_OLDEST_DATA);"))
m("P17", "one-direction", "bad", (PMG, "    return requestMatch && responseMatch;", "    return requestMatch || responseMatch;"))
m("P17", "gateway", "bad", (PMG, "        if (subscriberInterface != capro::Interfaces::INTERNAL && subscriberInterface == messageInterface)", "        if (subscriberInterface == messageInterface && publisherSource.getUniqueID() == subscriberPort.getUniqueID())"))
m("P17", "gateway2", "bad", (PMG, "        if (publisherInterface != capro::Interfaces::INTERNAL && publisherInterface == messageInterface)", "        if (publisherInterface == messageInterface)"))
m("P17", "first-found", "bad", (PMG, "            publisherFound = true;\n", "            publisherFound = true;\n            break;\n"))
m("P17", "found-resp", "bad", (PMG, "                /// @todo iox-#1128 inform port introspection about client\n            }\n            serverFound = true;\n", "                serverFound = true;\n            }\n"))
m("P17", "no-ack", "bad", (PMG, "                if (serverResponse.has_value())\n                {\n                    // send response to client port", "                if (serverResponse.has_value() && serverResponse.value().m_type == capro::CaproMessageType::NACK)\n                {\n                    // send response to client port"))
m("P17", "no-nack", "bad", (PMG, "                clientPort.dispatchCaProMessageAndGetPossibleResponse(nackMessage).and_then([](auto& response) {\n                    IOX_LOG(Fatal, \"Got response '\" << response.m_type << \"'\");\n                    IOX_PANIC(\"Expected no response on NACK messages\");\n                });\n", ""))
m("P17", "stop-noreg", "bad", (PMG, "            this->removeServerFromServiceRegistry(caproMessage.m_serviceDescription);\n        }\n        else\n", "        }\n        else\n"))
m("P17", "noiface", "bad", (PMG, "        this->sendToAllMatchingClientPorts(caproMessage, serverPort);\n        this->sendToAllMatchingInterfacePorts(caproMessage);\n    });\n}", "        this->sendToAllMatchingClientPorts(caproMessage, serverPort);\n    });\n}"))
m("P17", "two-servers", "bad", (PMG, "            if (currentPort->m_toBeDestroyed)\n            {\n                destroyServerPort(currentPort.to_ptr());\n                continue;\n            }", "            if (currentPort->m_toBeDestroyed)\n            {\n                destroyServerPort(currentPort.to_ptr());\n                break;\n            }"))
m("P17", "two-servers2", "bad", (PMG, "            if (currentPort->m_toBeDestroyed)\n            {\n                destroyServerPort(currentPort.to_ptr());\n                continue;\n            }", "            if (currentPort->m_toBeDestroyed)\n            {\n                continue;\n            }"))
m("P17", "internal", "bad", (PMG, "    else if (isInternal(service))", "    else if (isInternal(service) && !publisherOptions.offerOnCreate)"))
m("P17", "init-iface", "bad", (PMG, "            popo::ServerPortUser serverPort(serverPortData);\n            if (serverPort.isOffered())", "            popo::ServerPortUser serverPort(serverPortData);\n            if (serverPort.hasClients())"))
m("P17", "sd-eq", "bad", ("iceoryx_posh/source/capro/service_description.cpp", "    if (m_eventString != rhs.m_eventString)\n    {\n        return false;\n    }\n", "    if (m_eventString.size() != rhs.m_eventString.size())\n    {\n        return false;\n    }\n"))
m("P17", "reg-nochange", "bad", (SRG, "        ((*entry).*count)++;\n        m_dataChanged = true;", "        m_dataChanged = ((*entry).*count)++ == 0U;"))
m("P17", "reg-free", "bad", (SRG, "        m_dataChanged = true;\n        m_freeIndex = NO_INDEX;", "        m_dataChanged = true;"))
m("P17", "reg-drop", "bad", (SRG, "if (--entry->serverCount == 0U && entry->publisherCount == 0)", "if (--entry->serverCount == 0U)"))
m("P17", "reg-ge", "bad", (SRG, "if (entry && entry->publisherCount >= 1U)", "if (entry)"))
m("P17", "reg-find", "bad", (SRG, "            match &= (event) ? (entry->serviceDescription.getEventIDString() == *event) : true;\n", "            match |= (event) ? (entry->serviceDescription.getEventIDString() == *event) : false;\n"))
m("P17", "reg-findix", "bad", (SRG, "    for (uint32_t i = 0; i < m_serviceDescriptions.size(); ++i)", "    for (uint32_t i = 0; i + 1 < m_serviceDescriptions.size(); ++i)"))
m("P17", "reg-purge-free", "bad", (SRG, "        entry.reset();\n        // reuse the slot in the next insertion\n        m_freeIndex = index;\n        m_dataChanged = true;", "        m_freeIndex = index;\n        m_dataChanged = true;"))
m("P17", "pub-once", "bad", (PMG, "            new (chunk->userPayload()) ServiceRegistry(m_serviceRegistry);\n\n            publisher.sendChunk(chunk);", "            publisher.sendChunk(chunk);\n            new (chunk->userPayload()) ServiceRegistry(m_serviceRegistry);"))
m("P17", "ok-compat", "ok", (PMG, "    auto requestMatch = !(client.getServerTooSlowPolicy() == popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA\n                          && server.getRequestQueueFullPolicy() == popo::QueueFullPolicy::BLOCK_PRODUCER);\n", "    if (client.getServerTooSlowPolicy() == popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA\n        && server.getRequestQueueFullPolicy() == popo::QueueFullPolicy::BLOCK_PRODUCER)\n    {\n        return false;\n    }\n    const bool requestMatch = true;\n"))
m("P17", "ok-compat2", "ok", (PMG, "    return blockingPoliciesAreCompatible && historyRequestIsCompatible;", "    bool ok = blockingPoliciesAreCompatible;\n    ok &= historyRequestIsCompatible;\n    return ok;"))
m("P17", "ok-gw", "ok", (PMG, "        if (publisherInterface != capro::Interfaces::INTERNAL && publisherInterface == messageInterface)\n        {\n            // iox-#1908\n            continue;\n        }\n\n        if (isCompatiblePubSub(publisherPort, subscriberSource))", "        const bool cyclic = publisherInterface == messageInterface && publisherInterface != capro::Interfaces::INTERNAL;\n        if (!cyclic && isCompatiblePubSub(publisherPort, subscriberSource))"))
m("P17", "ok-gw2", "ok", (PMG, "        auto messageInterface = message.m_serviceDescription.getSourceInterface();\n        auto subscriberInterface", "        const auto& sd = message.m_serviceDescription;\n        auto messageInterface = sd.getSourceInterface();\n        auto subscriberInterface"), (PMG, "        if (isCompatiblePubSub(publisherSource, subscriberPort))\n        {", "        if (!isCompatiblePubSub(publisherSource, subscriberPort))\n        {\n            continue;\n        }\n        {"))
m("P17", "ok-reg", "ok", (SRG, "        if (entry && entry->publisherCount >= 1U)\n        {\n            m_dataChanged = true;\n            if (--entry->publisherCount == 0U && entry->serverCount == 0)\n            {\n                entry.reset();\n                // reuse the slot in the next insertion\n                m_freeIndex = index;\n            }\n        }", "        if (!entry || entry->publisherCount == 0U)\n        {\n            return;\n        }\n        entry->publisherCount -= 1U;\n        m_dataChanged = true;\n        const bool unused = entry->publisherCount == 0U && entry->serverCount == 0U;\n        if (unused)\n        {\n            m_freeIndex = index;\n            entry.reset();\n        }"))
m("P17", "ok-reg2", "ok", (SRG, "    for (auto& entry : m_serviceDescriptions)\n    {\n        if (!entry)\n        {\n            entry.emplace(serviceDescription);\n            (*entry).*count = 1U;\n            m_dataChanged = true;\n            return ok();\n        }\n    }", "    for (uint64_t i = 0U; i < m_serviceDescriptions.size(); ++i)\n    {\n        auto& entry = m_serviceDescriptions[i];\n        if (entry)\n        {\n            continue;\n        }\n        entry.emplace(serviceDescription);\n        (*entry).*count = 1U;\n        m_dataChanged = true;\n        return ok();\n    }"))
m("P17", "ok-find", "ok", (SRG, "            bool match = (service) ? (entry->serviceDescription.getServiceIDString() == *service) : true;\n            match &= (instance) ? (entry->serviceDescription.getInstanceIDString() == *instance) : true;\n            match &= (event) ? (entry->serviceDescription.getEventIDString() == *event) : true;\n\n            if (match)\n            {\n                callable(*entry);\n            }", "            const auto& sd = entry->serviceDescription;\n            if (service && !(sd.getServiceIDString() == *service))\n            {\n                continue;\n            }\n            if (instance && !(sd.getInstanceIDString() == *instance))\n            {\n                continue;\n            }\n            if (event && !(sd.getEventIDString() == *event))\n            {\n                continue;\n            }\n            callable(*entry);"))
m("P17", "ok-findix", "ok", (SRG, "        if (entry && entry->serviceDescription == serviceDescription)\n        {\n            return i;\n        }", "        if (!entry)\n        {\n            continue;\n        }\n        if (entry->serviceDescription != serviceDescription)\n        {\n            continue;\n        }\n        return i;"))
m("P17", "ok-nack", "ok", (PMG, "            if (!this->sendToAllMatchingServerPorts(caproMessage, clientPort))\n            {", "            const bool found = this->sendToAllMatchingServerPorts(caproMessage, clientPort);\n            if (!found)\n            {"))
m("P17", "ok-switch", "ok", (PMG, "        if (capro::CaproMessageType::OFFER == caproMessage.m_type)\n        {\n            this->addServerToServiceRegistry(caproMessage.m_serviceDescription);\n        }\n        else if (capro::CaproMessageType::STOP_OFFER == caproMessage.m_type)\n        {\n            this->removeServerFromServiceRegistry(caproMessage.m_serviceDescription);\n        }\n        else\n        {", "        switch (caproMessage.m_type)\n        {\n        case capro::CaproMessageType::OFFER:\n            this->addServerToServiceRegistry(caproMessage.m_serviceDescription);\n            break;\n        case capro::CaproMessageType::STOP_OFFER:\n            this->removeServerFromServiceRegistry(caproMessage.m_serviceDescription);\n            break;\n        default:"), (PMG, "            IOX_REPORT(PoshError::PORT_MANAGER__HANDLE_SERVER_PORTS_INVALID_CAPRO_MESSAGE, iox::er::RUNTIME_ERROR);\n            return;\n        }", "            IOX_REPORT(PoshError::PORT_MANAGER__HANDLE_SERVER_PORTS_INVALID_CAPRO_MESSAGE, iox::er::RUNTIME_ERROR);\n            return;\n        }\n"))
RDI = "iceoryx_posh/source/roudi/roudi.cpp"
SER = "iceoryx_hoofs/utility/include/iox/detail/serialization.inl"
VER = "iceoryx_posh/source/version/version_info.cpp"
SOP = "iceoryx_posh/source/popo/subscriber_options.cpp"
IMS = "iceoryx_posh/source/runtime/ipc_message.cpp"
IIB = "iceoryx_posh/source/runtime/ipc_interface_base.cpp"
m("P18", "sep", "bad", (RDI, "    if (runtimeName.empty())\n", "    if (runtimeName.empty() && cmd != runtime::IpcMessageType::REG)\n"))
m("P18", "sep2", "bad", (RDI, "        if (runtimeName.find(separator).has_value())\n", "        if (runtimeName.find(separator).has_value() && s != '/')\n"))
m("P18", "reg-n", "bad", (RDI, "        if (message.getNumberOfElements() != 6)", "        if (message.getNumberOfElements() < 6)"))
m("P18", "swap-pid", "bad", (RDI, "    convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str()).and_then([&pid](const auto value) {", "    convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str()).and_then([&pid](const auto value) {"))
m("P18", "fallthrough", "bad", (RDI, "            m_prcMgr->handleProcessShutdownPreparationRequest(runtimeName);\n        }\n        break;", "            m_prcMgr->handleProcessShutdownPreparationRequest(runtimeName);\n        }\n        [[fallthrough]];"))
m("P18", "sub-noerr", "bad", (RDI, "            if (subscriberOptionsDeserializationResult.has_error())\n            {", "            if (subscriberOptionsDeserializationResult.has_error()\n                && deserializationResult.value().getServiceIDString().empty())\n            {"))
m("P18", "ack-null", "bad", (PCM, "            if (maybeSubscriber.has_value())\n            {", "            if (!maybeSubscriber.has_error() || subscriberOptions.queueCapacity == 0U)\n            {"))
m("P18", "wrong-ack", "bad", (PCM, "runtime::IpcMessageType::CREATE_SUBSCRIBER_ACK)\n                           << convert::toString(offset) << convert::toString(m_mgmtSegmentId);", "runtime::IpcMessageType::CREATE_SUBSCRIBER_ACK)\n                           << convert::toString(m_mgmtSegmentId) << convert::toString(offset);"))
m("P18", "no-err", "bad", (PCM, "                sendBuffer << runtime::IpcMessageErrorTypeToString(runtime::IpcMessageErrorType::SUBSCRIBER_LIST_FULL);\n                process->sendViaIpcChannel(sendBuffer);", "                sendBuffer << runtime::IpcMessageErrorTypeToString(runtime::IpcMessageErrorType::SUBSCRIBER_LIST_FULL);"))
m("P18", "max-proc", "bad", (PCM, "    if (m_processList.size() >= MAX_PROCESS_NUMBER)", "    if (m_processList.size() > MAX_PROCESS_NUMBER)"))
m("P18", "ver", "bad", (VER, "                       && (m_versionTweak == other.m_versionTweak) && (m_commitIdString == other.m_commitIdString);", "                       && ((m_versionTweak == other.m_versionTweak) || (m_commitIdString == other.m_commitIdString));"))
m("P18", "ver-minor", "bad", (VER, "                       && (m_versionMinor == other.m_versionMinor);\n", "                       && (m_versionMinor >= other.m_versionMinor);\n"))
m("P18", "ver-skip", "bad", (PCM, "    if (!version::VersionInfo::getCurrentVersion().checkCompatibility(versionInfo, m_compatibilityCheckLevel))", "    if (isMonitored && !version::VersionInfo::getCurrentVersion().checkCompatibility(versionInfo, m_compatibilityCheckLevel))"))
m("P18", "opt-range", "bad", (SOP, "        || queueFullPolicy > static_cast<QueueFullPolicyUT>(QueueFullPolicy::DISCARD_OLDEST_DATA))", "        || queueFullPolicy > static_cast<QueueFullPolicyUT>(QueueFullPolicy::DISCARD_OLDEST_DATA) + 1)"))
m("P18", "opt-order", "bad", (SOP, "    auto deserializationSuccessful = serialized.extract(subscriberOptions.queueCapacity,\n                                                        subscriberOptions.historyRequest,", "    auto deserializationSuccessful = serialized.extract(subscriberOptions.historyRequest,\n                                                        subscriberOptions.queueCapacity,"))
m("P18", "entry", "bad", (SER, "    remainder = remainder.substr(pos + 1U + length);", "    remainder = remainder.substr(pos + length);"))
m("P18", "entry2", "bad", (SER, "    if (remainder.size() - pos - 1U < length)", "    if (remainder.size() - pos < length)"))
m("P18", "iface", "bad", (PMG, "    if (i < 0 || i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))", "    if (i < 0 || i > static_cast<int32_t>(capro::Interfaces::INTERFACE_END))"))
m("P18", "iface-neg", "bad", (PMG, "    if (i < 0 || i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))", "    if (i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))"))
m("P18", "valid", "bad", (IMS, "    if (!m_msg.empty() && m_msg.back() != m_separator)", "    if (!m_msg.empty() && m_msg.front() == m_separator)"))
m("P18", "session", "bad", (RDI, "    return ++sessionId;", "    return sessionId;"))
m("P18", "ok-if", "ok", (RDI, "        if (message.getNumberOfElements() != 4)\n        {\n            IOX_LOG(Error,\n                    \"Wrong number of parameters for \\\"IpcMessageType::CREATE_INTERFACE\\\" from \\\"\" << runtimeName\n                                                                                                  << \"\\\"received!\");\n        }\n        else\n        {", "        const bool complete = message.getNumberOfElements() == 4U;\n        if (complete)\n        {"))
m("P18", "ok-iface", "ok", (PMG, "    if (i < 0 || i >= static_cast<int32_t>(capro::Interfaces::INTERFACE_END))\n    {\n        IOX_LOG(Warn, \"invalid enum (out of range: \" << i << \")\");\n        return capro::Interfaces::INTERNAL;\n    }\n    return static_cast<capro::Interfaces>(i);", "    if (i >= 0 && i < static_cast<int32_t>(capro::Interfaces::INTERFACE_END))\n    {\n        return static_cast<capro::Interfaces>(i);\n    }\n    IOX_LOG(Warn, \"invalid enum (out of range: \" << i << \")\");\n    return capro::Interfaces::INTERNAL;"))
m("P18", "ok-entry", "ok", (SER, "    if (remainder.size() - pos - 1U < length)\n    {\n        return false;\n    }\n\n    firstEntry = remainder.substr(pos + 1U, length);\n    remainder = remainder.substr(pos + 1U + length);", "    const auto begin = pos + 1U;\n    if (length > remainder.size() - begin)\n    {\n        return false;\n    }\n\n    firstEntry = remainder.substr(begin, length);\n    remainder = remainder.substr(begin + length);"))
m("P18", "ok-ver", "ok", (VER, "        isCompatible = (m_valid == other.m_valid) && (m_versionMajor == other.m_versionMajor);\n        break;", "        return m_valid == other.m_valid && !(m_versionMajor != other.m_versionMajor);"))
m("P18", "ok-add", "ok", (PCM, "            if (maybeSubscriber.has_value())\n            {\n                // send", "            if (!maybeSubscriber.has_error())\n            {\n                // send"))
m("P18", "ok-opt", "ok", (SOP, "    if (!deserializationSuccessful\n        || queueFullPolicy > static_cast<QueueFullPolicyUT>(QueueFullPolicy::DISCARD_OLDEST_DATA))\n    {\n        return err(Serialization::Error::DESERIALIZATION_FAILED);\n    }\n", "    if (!deserializationSuccessful)\n    {\n        return err(Serialization::Error::DESERIALIZATION_FAILED);\n    }\n    if (queueFullPolicy > static_cast<QueueFullPolicyUT>(QueueFullPolicy::DISCARD_OLDEST_DATA))\n    {\n        return err(Serialization::Error::DESERIALIZATION_FAILED);\n    }\n"))

PRI = "iceoryx_posh/source/runtime/posh_runtime_impl.cpp"
IRI = "iceoryx_posh/source/runtime/ipc_runtime_interface.cpp"
SHU = "iceoryx_posh/source/runtime/shared_memory_user.cpp"
m("P19", "num-ge", "bad", (PRI, "    else if (receiveBuffer.getNumberOfElements() == 3U)\n    {\n        std::string IpcMessage = receiveBuffer.getElementAtIndex(0U);\n\n        if (stringToIpcMessageType(IpcMessage.c_str()) == IpcMessageType::CREATE_CLIENT_ACK)", "    else if (receiveBuffer.getNumberOfElements() >= 3U)\n    {\n        std::string IpcMessage = receiveBuffer.getElementAtIndex(0U);\n\n        if (stringToIpcMessageType(IpcMessage.c_str()) == IpcMessageType::CREATE_CLIENT_ACK)"))
m("P19", "wrong-ack", "bad", (PRI, "== IpcMessageType::CREATE_SERVER_ACK)", "== IpcMessageType::CREATE_CLIENT_ACK)"))
m("P19", "any-ack", "bad", (PRI, "if (stringToIpcMessageType(IpcMessage.c_str()) == IpcMessageType::CREATE_SUBSCRIBER_ACK)", "if (stringToIpcMessageType(IpcMessage.c_str()) != IpcMessageType::ERROR_RESPONSE)"))
m("P19", "conv-or", "bad", (PRI, "    if (!offset.has_value())\n    {", "    if (!offset.has_value() && id.value() != 0U)\n    {"))
m("P19", "clamp-max", "bad", (PRI, "    if (options.requestQueueCapacity > MAX_QUEUE_CAPACITY)", "    if (options.requestQueueCapacity > MAX_QUEUE_CAPACITY + 1U)"))
m("P19", "clamp-zero", "bad", (PRI, "    else if (options.responseQueueCapacity == 0U)", "    else if (options.responseQueueCapacity == 0U && options.nodeName.empty())"))
m("P19", "clamp-hist", "bad", (PRI, "        options.historyRequest = options.queueCapacity;", "        options.historyRequest = MAX_QUEUE_CAPACITY;"))
m("P19", "clamp-hist2", "bad", (PRI, "    if (subscriberOptions.historyRequest > options.queueCapacity)", "    if (subscriberOptions.historyRequest > subscriberOptions.queueCapacity)"))
m("P19", "send-orig", "bad", (PRI, "<< static_cast<Serialization>(service).toString() << options.serialize().toString()\n               << static_cast<Serialization>(portConfigInfo).toString();\n\n    auto maybeServer", "<< static_cast<Serialization>(service).toString() << serverOptions.serialize().toString()\n               << static_cast<Serialization>(portConfigInfo).toString();\n\n    auto maybeServer"))
m("P19", "stamp", "bad", (IRI, "                if (transmissionTimestamp == receivedTimestamp)", "                if (transmissionTimestamp <= receivedTimestamp)"))
m("P19", "ack-malf", "bad", (IRI, "|| !recv_timestamp_result.has_value() || !segment_id_result.has_value()", "|| !recv_timestamp_result.has_value()"))
m("P19", "ack-swap", "bad", (IRI, "mgmtShmCharacteristics.segmentId = segment_id_result.value();", "mgmtShmCharacteristics.segmentId = topic_size_result.value();"))
m("P19", "rw", "bad", (SHU, "segment.m_isWritable ? AccessMode::ReadWrite : AccessMode::ReadOnly", "segment.m_isWritable || shmSegments.size() > 1U ? AccessMode::ReadWrite : AccessMode::ReadOnly"))
m("P19", "late-unreg", "bad", (SHU, "        UntypedRelativePointer::unregisterPtr(segmentId);\n        shmSegments.pop_back();", "        shmSegments.pop_back();\n        UntypedRelativePointer::unregisterPtr(segmentId);"))
m("P19", "no-unreg", "bad", (SHU, "        UntypedRelativePointer::unregisterPtr(segmentId);\n        shmSegments.pop_back();", "        if (shmSegments.size() > 1U)\n        {\n            UntypedRelativePointer::unregisterPtr(segmentId);\n        }\n        shmSegments.pop_back();"))
m("P19", "no-cleaner", "bad", (SHU, "    ScopeGuard shmCleaner{[] {}, [&shmSegments] { SharedMemoryUser::destroy(shmSegments); }};", "    ScopeGuard shmCleaner{[] {}, [] {}};"))
m("P19", "purge", "bad", (SHU, ".openMode(OpenMode::OpenExisting)", ".openMode(OpenMode::OpenOrCreate)"))
m("P19", "skip-seg", "bad", (SHU, "        if (shmOpen.has_error())\n        {\n            return err(shmOpen.error());\n        }\n    }", "        if (shmOpen.has_error() && segment.m_isWritable)\n        {\n            return err(shmOpen.error());\n        }\n    }"))
m("P19", "recv-valid", "bad", (IIB, "                .has_error()\n           && answer.isValid();", "                .has_error();"))
m("P19", "send-valid", "bad", (IIB, "    if (!msg.isValid())\n    {\n        IOX_LOG(Error,\n                \"Trying to send the message \" << msg.getMessage() << \" which \"\n                                              << \"does not follow the specified syntax.\");\n        return false;\n    }\n\n    auto logLengthError = [&msg](PosixIpcChannelError& error) {\n        if (error == PosixIpcChannelError::MESSAGE_TOO_LONG)\n        {\n            const uint64_t messageSize = msg.getMessage().size() + platform::IoxIpcChannelType::NULL_TERMINATOR_SIZE;\n            IOX_LOG(Error, \"msg size of \" << messageSize << \" bigger than configured max message size\");\n        }\n    };\n    return !m_ipcChannel->timedSend", "    auto logLengthError = [&msg](PosixIpcChannelError& error) {\n        if (error == PosixIpcChannelError::MESSAGE_TOO_LONG)\n        {\n            const uint64_t messageSize = msg.getMessage().size() + platform::IoxIpcChannelType::NULL_TERMINATOR_SIZE;\n            IOX_LOG(Error, \"msg size of \" << messageSize << \" bigger than configured max message size\");\n        }\n    };\n    return !m_ipcChannel->timedSend"))
m("P19", "beat", "bad", (PRI, "    m_heartbeat.and_then([](auto& heartbeat) { heartbeat->beat(); });\n", "    if (!m_shutdownRequested.load(std::memory_order_relaxed))\n    {\n        m_heartbeat.and_then([](auto& heartbeat) { heartbeat->beat(); });\n    }\n"))
m("P19", "ok-min", "ok", (PRI, "    if (options.historyCapacity > MAX_HISTORY_CAPACITY)\n    {", "    options.historyCapacity = algorithm::minVal(options.historyCapacity, MAX_HISTORY_CAPACITY);\n    if (publisherOptions.historyCapacity > MAX_HISTORY_CAPACITY)\n    {"))
m("P19", "ok-neg", "ok", (PRI, "    if (maybeServer.has_error())\n    {", "    if (!maybeServer.has_value())\n    {"))
m("P19", "ok-shm", "ok", (SHU, "    while (!shmSegments.empty())\n    {\n        auto& shm = shmSegments.back();", "    while (shmSegments.size() != 0U)\n    {\n        auto& shm = shmSegments.back();"))
m("P19", "ok-acc", "ok", (SHU, "        auto shmOpen = openShmSegment(shmSegments,\n                                      domainId,\n                                      segment.m_segmentId,\n                                      ResourceType::USER_DEFINED,\n                                      segment.m_sharedMemoryName,\n                                      segment.m_size,\n                                      segment.m_isWritable ? AccessMode::ReadWrite : AccessMode::ReadOnly);", "        auto mode = AccessMode::ReadOnly;\n        if (segment.m_isWritable)\n        {\n            mode = AccessMode::ReadWrite;\n        }\n        auto shmOpen = openShmSegment(shmSegments,\n                                      domainId,\n                                      segment.m_segmentId,\n                                      ResourceType::USER_DEFINED,\n                                      segment.m_sharedMemoryName,\n                                      segment.m_size,\n                                      mode);"))
m("P19", "ok-recv", "ok", (IIB, "    return !m_ipcChannel->timedReceive(timeout)\n                .and_then([&answer](auto& message) {\n                    IpcInterface<IpcChannelType>::setMessageFromString(message.c_str(), answer);\n                })\n                .has_error()\n           && answer.isValid();", "    auto message = m_ipcChannel->timedReceive(timeout);\n    if (message.has_error())\n    {\n        return false;\n    }\n    return IpcInterface<IpcChannelType>::setMessageFromString(message.value().c_str(), answer);"))
m("P19", "ok-req", "ok", (IRI, "    if (timeout)\n    {\n        if (!m_AppIpcInterface.timedReceive(*timeout, answer))\n        {\n            IOX_LOG(Error, \"Could not receive request via App IPC channel interface.\\n\");\n            return false;\n        }\n    }\n    else\n    {\n        if (!m_AppIpcInterface.receive(answer))\n        {\n            IOX_LOG(Error, \"Could not receive request via App IPC channel interface.\\n\");\n            return false;\n        }\n    }\n\n    return true;", "    const bool received =\n        timeout.has_value() ? m_AppIpcInterface.timedReceive(*timeout, answer) : m_AppIpcInterface.receive(answer);\n    return received;"))

# ---- P20
SMI = "iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl"
MSI = "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl"
ACL = "iceoryx_hoofs/posix/filesystem/source/posix_acl.cpp"
PUS = "iceoryx_hoofs/posix/auth/source/posix_user.cpp"
PGR = "iceoryx_hoofs/posix/auth/source/posix_group.cpp"
m("P20", "map-reader-writable", "bad", (SMI, "segment.getWriterGroup().getName(), segment.getSegmentSize(), false, segment.getSegmentId());", "segment.getWriterGroup().getName(), segment.getSegmentSize(), true, segment.getSegmentId());"))
m("P20", "map-writer-by-reader", "bad", (SMI, "            if (segment.getWriterGroup() == groupID)\n            {\n                // a user is allowed to be only in one writer group", "            if (segment.getReaderGroup() == groupID)\n            {\n                // a user is allowed to be only in one writer group"))
m("P20", "map-two-writers", "bad", (SMI, "                    foundInWriterGroup = true;\n", ""))
m("P20", "map-nodup", "bad", (SMI, "segment.getReaderGroup() == groupID\n                && std::find_if(mappingContainer.begin(), mappingContainer.end(), [&](const SegmentMapping& mapping) {\n                       return mapping.m_segmentId == segment.getSegmentId();\n                   }) == mappingContainer.end())", "segment.getReaderGroup() == groupID)"))
m("P20", "map-name-reader", "bad", (SMI, "segment.getWriterGroup().getName(), segment.getSegmentSize(), false, segment.getSegmentId());", "segment.getReaderGroup().getName(), segment.getSegmentSize(), false, segment.getSegmentId());"))
m("P20", "map-manual-loop", "ok", (SMI, "segment.getReaderGroup() == groupID\n                && std::find_if(mappingContainer.begin(), mappingContainer.end(), [&](const SegmentMapping& mapping) {\n                       return mapping.m_segmentId == segment.getSegmentId();\n                   }) == mappingContainer.end())\n            {", "segment.getReaderGroup() == groupID)\n            {\n                bool listed = false;\n                for (const auto& mapping : mappingContainer)\n                {\n                    if (mapping.m_segmentId == segment.getSegmentId())\n                    {\n                        listed = true;\n                        break;\n                    }\n                }\n                if (listed)\n                {\n                    continue;\n                }\n"))
m("P20", "map-continue", "ok", (SMI, "            if (segment.getWriterGroup() == groupID)\n            {\n                // a user is allowed to be only in one writer group, as we currently only support one memory manager per\n                // process\n                if (!foundInWriterGroup)", "            if (!(segment.getWriterGroup() == groupID))\n            {\n                continue;\n            }\n            {\n                if (!foundInWriterGroup)"))
m("P20", "info-reader", "bad", (SMI, "            if (segment.getWriterGroup() == groupID)\n            {\n                segmentInfo", "            if (segment.getReaderGroup() == groupID || segment.getWriterGroup() == groupID)\n            {\n                segmentInfo"))
m("P20", "info-id", "bad", (SMI, "                segmentInfo.m_segmentID = segment.getSegmentId();\n", "                segmentInfo.m_segmentID = m_segmentContainer[0].getSegmentId();\n"))
m("P20", "info-first", "bad", (SMI, "                return segmentInfo;\n            }\n        }\n", "                return segmentInfo;\n            }\n            break;\n        }\n"))
m("P20", "create-swapped", "bad", (SMI, "                                    readerGroup,\n                                    writerGroup,", "                                    writerGroup,\n                                    readerGroup,"))
m("P20", "create-same", "bad", (SMI, "auto readerGroup = PosixGroup(segmentEntry.m_readerGroup);", "auto readerGroup = PosixGroup(segmentEntry.m_writerGroup);"))
m("P20", "acl-reader-rw", "bad", (MSI, "PosixAcl::Permission::READ, readerGroup", "PosixAcl::Permission::READWRITE, readerGroup"))
m("P20", "acl-others", "bad", (MSI, "PosixAcl::Category::OTHERS, PosixAcl::Permission::NONE", "PosixAcl::Category::OTHERS, PosixAcl::Permission::READ"))
m("P20", "acl-inverted", "bad", (MSI, "if (!(readerGroup == writerGroup))", "if (readerGroup == writerGroup)"))
m("P20", "acl-ignored", "bad", (MSI, "IOX_REPORT_FATAL(PoshError::MEPOO__SEGMENT_COULD_NOT_APPLY_POSIX_RIGHTS_TO_SHARED_MEMORY);", "IOX_LOG(Error, \"no rights\");"))
m("P20", "acl-order", "ok", (MSI, "    acl.addPermissionEntry(PosixAcl::Category::USER, PosixAcl::Permission::READWRITE);\n    acl.addPermissionEntry(PosixAcl::Category::GROUP, PosixAcl::Permission::READWRITE);", "    acl.addPermissionEntry(PosixAcl::Category::GROUP, PosixAcl::Permission::READWRITE);\n    acl.addPermissionEntry(PosixAcl::Category::USER, PosixAcl::Permission::READWRITE);"))
m("P20", "acl-entry-ignored", "bad", (ACL, "        if (!createACLEntry(workingACL.get(), entry))\n        {\n            return false;\n        }", "        if (!createACLEntry(workingACL.get(), entry))\n        {\n            continue;\n        }"))
m("P20", "acl-first-only", "bad", (ACL, "        if (!createACLEntry(workingACL.get(), entry))\n        {\n            return false;\n        }", "        if (!createACLEntry(workingACL.get(), entry))\n        {\n            return false;\n        }\n        break;"))
m("P20", "acl-fd-ignored", "bad", (ACL, "        IOX_LOG(Error, \"Error: Could not set file ACL.\");\n        return false;", "        IOX_LOG(Error, \"Error: Could not set file ACL.\");\n        return true;"))
m("P20", "acl-read-write", "bad", (ACL, "        return addAclPermission(entryPermissionSet, ACL_READ);\n", "        return addAclPermission(entryPermissionSet, ACL_READ) && addAclPermission(entryPermissionSet, ACL_WRITE);\n"))
m("P20", "acl-rw-noread", "bad", (ACL, "        if (!addAclPermission(entryPermissionSet, ACL_READ))\n        {\n            return false;\n        }\n", ""))
m("P20", "acl-rw-and", "ok", (ACL, "        if (!addAclPermission(entryPermissionSet, ACL_READ))\n        {\n            return false;\n        }\n        return addAclPermission(entryPermissionSet, ACL_WRITE);", "        return addAclPermission(entryPermissionSet, ACL_READ) && addAclPermission(entryPermissionSet, ACL_WRITE);"))
m("P20", "acl-noqual", "bad", (ACL, "    case ACL_GROUP:\n    {", "    case ACL_GROUP:\n    {\n        break;\n    }\n    case 0xFFFFU:\n    {"))
m("P20", "acl-nomask", "bad", (ACL, "            IOX_LOG(Error, \"Error: No such group\");\n            return false;\n        }\n\n        m_useACLMask = true;", "            IOX_LOG(Error, \"Error: No such group\");\n            return false;\n        }\n"))
m("P20", "groups-skip", "bad", (PUS, "    for (int32_t i = 0; i < numGroups; ++i)", "    for (int32_t i = 1; i < numGroups; ++i)"))
m("P20", "groups-while", "ok", (PUS, "    for (int32_t i = 0; i < numGroups; ++i)\n    {\n        vec.emplace_back(groups[static_cast<uint64_t>(i)]);\n    }", "    int32_t i = 0;\n    while (i < numGroups)\n    {\n        const auto group = groups[static_cast<uint64_t>(i)];\n        vec.emplace_back(group);\n        i++;\n    }"))
m("P20", "groups-failure", "bad", (PUS, "            .failureReturnValue(-1)\n", "            .failureReturnValue(0)\n"))
m("P20", "group-eq", "bad", (PGR, "return (m_id == other.m_id);", "return (m_id <= other.m_id);"))
m("P20", "group-unknown", "bad", (PGR, "m_id = std::numeric_limits<iox_gid_t>::max();", "m_id = 0;"))
m("P20", "euid", "bad", (PUS, "return PosixUser(iox_geteuid());", "return PosixUser(getuid());"))

UDI = "iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl"
MQI = "iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl"
NPI = "iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl"
UDC = "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp"
MQC = "iceoryx_hoofs/posix/ipc/source/message_queue.cpp"
NPC = "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp"
m("P21", "uds-noterm", "bad", (UDI, "        msgSizeToSend += NULL_TERMINATOR_SIZE;\n    }\n    auto sendCall", "    }\n    auto sendCall"))
m("P21", "uds-senderr", "bad", (UDI, "    if (sendCall.has_error())\n    {\n        return err(errnoToEnum(sendCall.error().errnum));\n    }\n", ""))
m("P21", "uds-long", "bad", (UDI, "    if (msgSize > m_maxMessageSize)", "    if (msgSize > m_maxMessageSize + 1U)"))
m("P21", "uds-sndtimeo", "bad", (UDI, "SO_SNDTIMEO", "SO_RCVTIMEO"))
m("P21", "uds-recv-zero", "bad", (UDI, "if (receivedMsgLength == 0 || msg[", "if (msg["))
m("P21", "uds-recv-len", "bad", (UDI, "return ok<uint64_t>(receivedMsgLength - NULL_TERMINATOR_SIZE);", "return ok<uint64_t>(receivedMsgLength);"))
m("P21", "uds-recv-nested", "ok", (UDI, "        if (receivedMsgLength == 0 || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)\n        {\n            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)\n            msg[0] = 0;\n            return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);\n        }\n        return ok<uint64_t>(receivedMsgLength - NULL_TERMINATOR_SIZE);\n", "        if (receivedMsgLength >= NULL_TERMINATOR_SIZE)\n        {\n            const auto messageLength = receivedMsgLength - NULL_TERMINATOR_SIZE;\n            if (msg[messageLength] == 0)\n            {\n                return ok<uint64_t>(messageLength);\n            }\n        }\n        msg[0] = 0;\n        return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);\n"))
m("P21", "mq-recv-zero", "bad", (MQI, "if (msgLenght == 0 || msg[", "if (msg["))
m("P21", "mq-size", "bad", (MQI, "    if (msgSizeToSend > static_cast<uint64_t>(m_attributes.mq_msgsize))\n    {\n        IOX_LOG(Error, \"the message which should be sent to the message queue '\" << m_name << \"' is too long\");\n        return err(PosixIpcChannelError::MESSAGE_TOO_LONG);\n    }\n\n    auto mqCall", "    if (msgSize > static_cast<uint64_t>(m_attributes.mq_msgsize))\n    {\n        IOX_LOG(Error, \"the message which should be sent to the message queue '\" << m_name << \"' is too long\");\n        return err(PosixIpcChannelError::MESSAGE_TOO_LONG);\n    }\n\n    auto mqCall"))
m("P21", "mq-timeout-ok", "bad", (MQI, "    if (mqCall->errnum == TIMEOUT_ERRNO)\n    {\n        return err(errnoToEnum(ETIMEDOUT));\n    }\n\n    return ok();\n}\n\ntemplate <typename Type, MessageQueue::Termination Terminator>\nexpected<void, PosixIpcChannelError> MessageQueue::sendImpl", "    return ok();\n}\n\ntemplate <typename Type, MessageQueue::Termination Terminator>\nexpected<void, PosixIpcChannelError> MessageQueue::sendImpl"))
m("P21", "mq-monotonic", "bad", (MQI, "    timespec timeOut = timeout.timespec(units::TimeSpecReference::Epoch);\n    auto mqCall =\n", "    timespec timeOut = timeout.timespec(units::TimeSpecReference::Monotonic);\n    auto mqCall =\n"))
m("P21", "mq-open-fail", "bad", (MQC, ".failureReturnValue(static_cast<mqd_t>(MessageQueue::ERROR_CODE))\n                .suppress", ".failureReturnValue(MessageQueue::INVALID_DESCRIPTOR)\n                .suppress"))
m("P21", "np-push-after-post", "bad", (NPI, "        IOX_DISCARD_RESULT(m_data->messages.push(message));\n        m_data->receiveSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n        return ok();\n    }\n    return err(PosixIpcChannelError::TIMEOUT);\n}\n\ntemplate <uint64_t N>\nexpected<void, PosixIpcChannelError> NamedPipe::send(", "        m_data->receiveSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n        IOX_DISCARD_RESULT(m_data->messages.push(message));\n        return ok();\n    }\n    return err(PosixIpcChannelError::TIMEOUT);\n}\n\ntemplate <uint64_t N>\nexpected<void, PosixIpcChannelError> NamedPipe::send("))
m("P21", "np-timed-inv", "ok", (NPI, "    if (waitState == SemaphoreWaitState::NO_TIMEOUT)\n    {\n        IOX_DISCARD_RESULT(m_data->messages.push(message));\n        m_data->receiveSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n        return ok();\n    }\n    return err(PosixIpcChannelError::TIMEOUT);", "    if (waitState == SemaphoreWaitState::TIMEOUT)\n    {\n        return err(PosixIpcChannelError::TIMEOUT);\n    }\n    auto& queue = m_data->messages;\n    IOX_DISCARD_RESULT(queue.push(message));\n    m_data->receiveSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n    return ok();"))
m("P21", "np-timed-wrong", "bad", (NPI, "    if (waitState == SemaphoreWaitState::NO_TIMEOUT)\n    {\n        IOX_DISCARD_RESULT", "    if (waitState == SemaphoreWaitState::TIMEOUT)\n    {\n        IOX_DISCARD_RESULT"))
m("P21", "np-recv-post-first", "bad", (NPI, "    m_data->receiveSemaphore().wait().expect(\"'wait' on a semaphore should always be successful\");\n    auto msg = m_data->messages.pop();\n    if (msg.has_value())\n    {\n        m_data->sendSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n", "    m_data->receiveSemaphore().wait().expect(\"'wait' on a semaphore should always be successful\");\n    m_data->sendSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n    auto msg = m_data->messages.pop();\n    if (msg.has_value())\n    {\n"))
m("P21", "np-recv-take-first", "ok", (NPI, "        m_data->sendSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n        message = *msg;\n        return ok();\n    }\n    return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);\n}\n\ntemplate <uint64_t N>\nexpected<void, PosixIpcChannelError> NamedPipe::tryReceive", "        message = msg.value();\n        m_data->sendSemaphore().post().expect(\"'post' on a semaphore should always be successful\");\n        return ok();\n    }\n    return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);\n}\n\ntemplate <uint64_t N>\nexpected<void, PosixIpcChannelError> NamedPipe::tryReceive"))
m("P21", "np-count", "bad", (NPC, "    if (m_maxMsgNumber > NamedPipe::MAX_NUMBER_OF_MESSAGES)", "    if (m_maxMsgNumber > NamedPipe::MAX_MESSAGE_SIZE)"))
m("P21", "np-owner-init", "bad", (NPC, "    if (sharedMemory.hasOwnership())\n    {\n        new (data)", "    if (m_channelSide == PosixIpcChannelSide::SERVER)\n    {\n        new (data)"))
m("P21", "uds-fit", "bad", (UDC, "if (m_name.size() > UnixDomainSocket::LONGEST_VALID_NAME)", "if (m_name.size() > UnixDomainSocket::LONGEST_VALID_NAME + 1)"))
m("P21", "uds-errno", "bad", (UDC, "    case ECONNREFUSED:", "    case EISCONN:"))

SHC = "iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp"
MMC = "iceoryx_hoofs/posix/ipc/source/posix_memory_map.cpp"
SOC = "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp"
FLC = "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp"
NSC = "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp"
USC = "iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp"
SHE = "iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp"
MUC = "iceoryx_hoofs/posix/sync/source/mutex.cpp"
FSC = "iceoryx_hoofs/filesystem/source/filesystem.cpp"
m("P22", "shm-existing-owner", "bad", (SHC, "                hasOwnership = false;\n", ""))
m("P22", "shm-truncate-keep", "bad", (SHC, "            IOX_POSIX_CALL(iox_shm_unlink)\n            (nameWithLeadingSlash.c_str())\n                .failureReturnValue(PosixSharedMemory::INVALID_HANDLE)\n                .evaluate()\n                .or_else([&](auto&) {", "            IOX_POSIX_CALL(iox_shm_close)\n            (PosixSharedMemory::INVALID_HANDLE)\n                .failureReturnValue(PosixSharedMemory::INVALID_HANDLE)\n                .evaluate()\n                .or_else([&](auto&) {"))
m("P22", "shm-move-keep", "bad", (SHC, "        m_handle = rhs.m_handle;\n\n        rhs.reset();", "        m_handle = rhs.m_handle;\n\n        rhs.m_handle = INVALID_HANDLE;"))
m("P22", "shm-move-order", "ok", (SHC, "        m_name = rhs.m_name;\n        m_hasOwnership = rhs.m_hasOwnership;\n        m_handle = rhs.m_handle;", "        m_handle = rhs.m_handle;\n        m_hasOwnership = rhs.hasOwnership();\n        m_name = rhs.m_name;"))
m("P22", "shm-own-switch", "ok", (SHC, "    bool hasOwnership = (m_openMode == OpenMode::ExclusiveCreate || m_openMode == OpenMode::PurgeAndCreate\n                         || m_openMode == OpenMode::OpenOrCreate);", "    bool hasOwnership = m_openMode != OpenMode::OpenExisting;"))
m("P22", "shm-unlink-nonowner", "bad", (SHC, "    if (m_hasOwnership)\n    {\n        auto unlinkResult", "    if (!m_name.empty())\n    {\n        auto unlinkResult"))
m("P22", "shm-excl", "bad", (FSC, "        return O_CREAT | O_EXCL;", "        return O_CREAT;"))
m("P22", "map-prot", "bad", (FSC, "        return PROT_READ;\n", "        return PROT_READ | PROT_WRITE;\n"))
m("P22", "map-fail", "bad", (MMC, ".failureReturnValue(MAP_FAILED)", ".failureReturnValue(nullptr)"))
m("P22", "map-move-twice", "bad", (MMC, "        rhs.m_baseAddress = nullptr;\n", ""))
m("P22", "obj-size", "bad", (SOC, "    if (realSize < m_memorySizeInBytes)", "    if (realSize == 0U)"))
m("P22", "obj-zero-all", "bad", (SOC, "    if (sharedMemory->hasOwnership())\n", "    if (m_accessMode == AccessMode::ReadWrite)\n"))
m("P22", "obj-access", "bad", (SOC, "                         .accessMode(m_accessMode)\n                         .flags", "                         .accessMode(AccessMode::ReadWrite)\n                         .flags"))
m("P22", "obj-extract", "ok", (SOC, "    const auto realSize = *realSizeResult;\n    if (realSize < m_memorySizeInBytes)", "    const auto realSize = realSizeResult.value();\n    const bool isSufficient = !(m_memorySizeInBytes > realSize);\n    if (!isSufficient)"))
m("P22", "lock-leak", "bad", (FLC, "        IOX_POSIX_CALL(iox_ext_close)\n        (fileDescriptor).failureReturnValue(-1).evaluate()", "        IOX_POSIX_CALL(iox_flock)\n        (fileDescriptor, 8).failureReturnValue(-1).evaluate()"))
m("P22", "lock-wouldblock", "bad", (FLC, "static_cast<int>(FileLock::LockOperation::LOCK))\n                        .failureReturnValue(-1)\n                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)", "static_cast<int>(FileLock::LockOperation::LOCK))\n                        .failureReturnValue(-1)\n                        .ignoreErrnos(EWOULDBLOCK)"))
m("P22", "nsem-own", "bad", (NSC, "        constexpr bool HAS_OWNERSHIP = false;", "        constexpr bool HAS_OWNERSHIP = true;"))
m("P22", "nsem-notfound", "bad", (NSC, "        if (!result.value())\n        {\n", "        if (!result.value() && m_initialValue != 0)\n        {\n"))
m("P22", "nsem-cases", "ok", (NSC, "        case EMFILE:\n            IOX_LOG(Error,\n                    \"The per-process limit of file descriptor exceeded while opening", "        case EINVAL:\n            return err(SemaphoreError::UNDEFINED);\n        case EMFILE:\n            IOX_LOG(Error,\n                    \"The per-process limit of file descriptor exceeded while opening"))
m("P22", "usem-default", "bad", (USC, "            IOX_LOG(Error, \"This should never happen. An unknown error occurred.\");\n            return err(SemaphoreError::UNDEFINED);", "            IOX_LOG(Error, \"This should never happen. An unknown error occurred.\");\n            break;"))
m("P22", "usem-flag", "bad", (USC, "        uninitializedSemaphore.value().m_destroyHandle = false;\n", ""))
m("P22", "sem-timedout", "bad", (SHE, "(result.value().errnum == ETIMEDOUT) ? SemaphoreWaitState::TIMEOUT : SemaphoreWaitState::NO_TIMEOUT", "(result.value().value == ETIMEDOUT) ? SemaphoreWaitState::TIMEOUT : SemaphoreWaitState::NO_TIMEOUT"))
m("P22", "sem-try-ignore", "bad", (SHE, ".ignoreErrnos(EAGAIN).evaluate()", ".ignoreErrnos(EAGAIN, EINVAL).evaluate()"))
m("P22", "mtx-robust-late", "bad", (MUC, "    result = mutexAttributes.setThreadTerminationBehavior(m_thread_termination_behavior);\n    if (result.has_error())\n    {\n        return result;\n    }\n", ""))
m("P22", "mtx-pshared", "bad", (MUC, "(enableIpcSupport) ? IOX_PTHREAD_PROCESS_SHARED : IOX_PTHREAD_PROCESS_PRIVATE", "(enableIpcSupport) ? IOX_PTHREAD_PROCESS_PRIVATE : IOX_PTHREAD_PROCESS_SHARED"))
m("P22", "mtx-dead", "bad", (MUC, "            this->m_hasInconsistentState = true;\n            return err(LockError::", "            return err(LockError::"))
m("P22", "mtx-busy", "bad", (MUC, "return (result->errnum == EBUSY) ?", "return (result->value == EBUSY && false) ?"))
m("P22", "mtx-init-order", "ok", (MUC, "    result = mutexAttributes.setType(m_lock_behavior);\n    if (result.has_error())\n    {\n        return result;\n    }\n\n    result = mutexAttributes.setProtocol(m_priority_inheritance);\n    if (result.has_error())\n    {\n        return result;\n    }\n", "    result = mutexAttributes.setProtocol(m_priority_inheritance);\n    if (result.has_error())\n    {\n        return result;\n    }\n\n    result = mutexAttributes.setType(m_lock_behavior);\n    if (result.has_error())\n    {\n        return err(result.error());\n    }\n"))
m("P22", "uds-leak", "bad", (UDC, "    if (connectCall.has_error())\n    {\n        UnixDomainSocket::closeFileDescriptor(m_name, sockfd, sockAddr, m_channelSide)", "    if (connectCall.has_error())\n    {\n        UnixDomainSocket::closeFileDescriptor(m_name, UnixDomainSocket::INVALID_FD, sockAddr, m_channelSide)"))
m("P22", "uds-client-unlink", "bad", (UDC, "            if (PosixIpcChannelSide::SERVER == channelSide)\n            {\n                auto unlinkCall", "            {\n                auto unlinkCall"))
m("P22", "mq-moved", "bad", (MQC, "        other.m_mqDescriptor = INVALID_DESCRIPTOR;\n", ""))

PR = "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl"
RP = "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl"
RLP = "iceoryx_hoofs/memory/include/iox/detail/relocatable_ptr.inl"
RPD = "iceoryx_hoofs/memory/source/relative_pointer_data.cpp"
RPI = "iceoryx_hoofs/memory/include/iox/detail/relative_pointer_data.inl"
m("P23", "search-end", "bad", (PR, "(ptr <= m_info[id].endPtr)", "(ptr < m_info[id].endPtr)"))
m("P23", "search-last", "bad", (PR, "for (id_t id{1U}; id <= m_maxRegistered; ++id)", "for (id_t id{1U}; id < m_maxRegistered; ++id)"))
m("P23", "max-lower", "ok", (PR, "            m_info[id].basePtr = nullptr;\n\n", "            m_info[id].basePtr = nullptr;\n            if (id == m_maxRegistered)\n            {\n                m_maxRegistered = id - 1U;\n            }\n\n"))
m("P23", "end-size", "bad", (PR, "(size - 1U)", "(size)"))
m("P23", "move-keep", "bad", (RP, "        m_offset = other.m_offset;\n        other.m_id = NULL_POINTER_ID;\n        other.m_offset = NULL_POINTER_OFFSET;", "        m_offset = other.m_offset;\n        other.m_id = NULL_POINTER_ID;"))
m("P23", "pack-max", "bad", (RPI, "(offset > MAX_VALID_OFFSET)", "(offset > NULL_POINTER_OFFSET)"))
m("P23", "packed-off", "bad", (RPD, "(m_idAndOffset >> ID_BIT_SIZE) & OFFSET_RANGE", "(m_idAndOffset >> ID_BIT_SIZE) & 0xffffffffU"))
m("P23", "reloc-raw", "bad", (RLP, "inline relocatable_ptr<T>::relocatable_ptr(const relocatable_ptr& other) noexcept\n    : m_offset(to_offset(other.get()))", "inline relocatable_ptr<T>::relocatable_ptr(const relocatable_ptr& other) noexcept\n    : m_offset(other.m_offset)"))
m("P23", "search-ref", "ok", (PR, "        if ((m_info[id].basePtr != nullptr) && (ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))\n        {\n            return id;\n        }", "        const auto& entry = m_info[id];\n        if (entry.basePtr == nullptr)\n        {\n            continue;\n        }\n        const bool contains = !(ptr < entry.basePtr) && !(entry.endPtr < ptr);\n        if (contains)\n        {\n            return id;\n        }"))
m("P23", "shift-mul", "ok", (RPD, "(m_idAndOffset >> ID_BIT_SIZE) & OFFSET_RANGE", "m_idAndOffset >> ID_BIT_SIZE"))
PM_ = "iceoryx_posh/source/roudi/port_manager.cpp"
m("P17", "init-desc", "bad", (PM_, "                caproMessage.m_serviceDescription = publisherPort.getCaProServiceDescription();\n                for", "                for"))
m("P17", "init-kind", "bad", (PM_, "        caproMessage.m_serviceType = capro::CaproServiceType::SERVER;\n        for", "        for"))
m("P17", "init-offered", "bad", (PM_, "            if (serverPort.isOffered())\n            {\n                caproMessage", "            {\n                caproMessage"))
m("P17", "init-flag", "bad", (PM_, "            currentPort->m_doInitialOfferForward = false;\n", ""))
ACLC = "iceoryx_hoofs/posix/filesystem/source/posix_acl.cpp"
m("P20", "acl-read-fail", "bad", (ACLC, "        if (!addAclPermission(entryPermissionSet, ACL_READ))\n        {\n            return false;\n        }\n", "        IOX_DISCARD_RESULT(addAclPermission(entryPermissionSet, ACL_READ));\n"))
m("P20", "acl-mask", "bad", (ACLC, "    if (m_useACLMask)\n    {\n        createACLEntry", "    if (m_permissions.size() > 4U)\n    {\n        createACLEntry"))
m("P20", "acl-nogroup", "bad", (ACLC, "        if (!PosixGroup::getGroupName(id).has_value())", "        if (id == 0U && !PosixGroup::getGroupName(id).has_value())"))
MQC_ = "iceoryx_hoofs/posix/ipc/source/message_queue.cpp"
MQI_ = "iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl"
m("P22", "mq-client-unlink", "bad", (MQC_, "    if (m_channelSide == PosixIpcChannelSide::CLIENT)\n    {\n        return ok();\n    }\n\n    auto mqCall = IOX_POSIX_CALL(mq_unlink)", "    auto mqCall = IOX_POSIX_CALL(mq_unlink)"))
m("P22", "mq-client-open-unlink", "bad", (MQC_, "    if (m_channelSide == PosixIpcChannelSide::SERVER)\n    {\n        IOX_POSIX_CALL(mq_unlink)", "    {\n        IOX_POSIX_CALL(mq_unlink)"))
m("P22", "mq-noclose", "bad", (MQC_, "        auto unlinkCall = unlink();\n        if (unlinkCall.has_error())\n        {\n            m_mqDescriptor = INVALID_DESCRIPTOR;\n            return unlinkCall;\n        }\n", ""))
m("P21", "mq-recv-timeout", "bad", (MQI_, "    auto mqCall = IOX_POSIX_CALL(mq_receive)(m_mqDescriptor, msg, static_cast<size_t>(maxMsgSize), nullptr)\n                      .failureReturnValue(ERROR_CODE)\n                      .evaluate();\n\n    if (mqCall.has_error())\n    {\n        return err(errnoToEnum(mqCall.error().errnum));\n    }\n\n    if (mqCall->errnum == TIMEOUT_ERRNO)", "    auto mqCall = IOX_POSIX_CALL(mq_receive)(m_mqDescriptor, msg, static_cast<size_t>(maxMsgSize), nullptr)\n                      .failureReturnValue(ERROR_CODE)\n                      .evaluate();\n\n    if (mqCall.has_error())\n    {\n        return err(errnoToEnum(mqCall.error().errnum));\n    }\n\n    if (mqCall->errnum != 0)"))
m("P21", "mq-len0", "bad", (MQI_, "        result = timedReceiveImpl<char, Termination::NULL_TERMINATOR>(str, info.total_size, timeout);\n        if (result.has_error())", "        result = timedReceiveImpl<char, Termination::NULL_TERMINATOR>(str, info.total_size, timeout);\n        if (result.has_error() || info.used_size == 0)"))
MPC = "iceoryx_posh/source/mepoo/mem_pool.cpp"
m("P24", "pool-mutex", "bad", (MPC, "    uint32_t index{0U};\n    if (!m_freeIndices.pop(index))", "    static std::mutex mtx;\n    std::lock_guard<std::mutex> g(mtx);\n    uint32_t index{0U};\n    if (!m_freeIndices.pop(index))"), (MPC, '#include "iox/assertions.hpp"\n', '#include "iox/assertions.hpp"\n#include <mutex>\n'))
CRI = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_receiver.inl"
m("P24", "take-wait", "bad", (CRI, "    auto popRet = this->tryPop();\n", "    auto popRet = this->tryPop();\n    if (!popRet.has_value())\n    {\n        iox::detail::adaptive_wait().wait();\n        popRet = this->tryPop();\n    }\n"), (CRI, '#include "iceoryx_posh/internal/posh_error_reporting.hpp"\n', '#include "iceoryx_posh/internal/posh_error_reporting.hpp"\n#include "iox/detail/adaptive_wait.hpp"\n'))
SPU = "iceoryx_posh/source/popo/ports/subscriber_port_user.cpp"
m("P24", "lost-heap", "bad", (SPU, "    return m_chunkReceiver.hasLostChunks();", "    std::vector<bool> lost;\n    lost.push_back(m_chunkReceiver.hasLostChunks());\n    volatile auto n = lost.size();\n    return n > 0 && lost[0];"), (SPU, '#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"\n', '#include "iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp"\n#include <vector>\n'))
m("P24", "pool-log", "ok", (MPC, "        return nullptr;\n    }\n\n    /// @todo iox-#1714", "        IOX_LOG(Error, \"none left\");\n        return nullptr;\n    }\n\n    /// @todo iox-#1714"))
m("P23", "max-shrink", "bad", (PR, "            m_info[id].basePtr = nullptr;\n\n", "            m_info[id].basePtr = nullptr;\n            --m_maxRegistered;\n\n"))
m("P23", "max-scan", "ok", (PR, "            m_info[id].basePtr = nullptr;\n\n", "            m_info[id].basePtr = nullptr;\n            while (m_maxRegistered > 0U && m_info[m_maxRegistered].basePtr == nullptr)\n            {\n                --m_maxRegistered;\n            }\n\n"))

# ---------------------------------------------------------------- P25
OPT = "iceoryx_hoofs/vocabulary/include/iox/detail/optional.inl"
VAR = "iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl"
VARI = "iceoryx_hoofs/vocabulary/include/iox/detail/variant_internal.hpp"
EXP = "iceoryx_hoofs/vocabulary/include/iox/detail/expected.inl"
EXPH = "iceoryx_hoofs/vocabulary/include/iox/detail/expected_helper.hpp"
UPT = "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl"
m("P25", "opt_emplace_over", "bad", (OPT, "    if (m_hasValue)\n    {\n        destruct_value();\n    }\n\n    construct_value(std::forward<Targs>(args)...);\n    return value();", "    construct_value(std::forward<Targs>(args)...);\n    return value();"))
m("P25", "opt_move_noclear", "ok", (OPT, "        construct_value(std::move(rhs.value()));\n        rhs.destruct_value();\n    }\n}", "        construct_value(std::move(rhs.value()));\n    }\n}"))
m("P25", "opt_destruct_flag", "bad", (OPT, "    value().~T();\n    m_hasValue = false;", "    value().~T();"))
m("P25", "opt_assign_noself", "ok", (OPT, "optional<T>& optional<T>::operator=(const optional& rhs) noexcept\n{\n    if (this != &rhs)", "optional<T>& optional<T>::operator=(const optional& rhs) noexcept\n{\n    if (true)"))
m("P25", "opt_massign_noself", "bad", (OPT, "optional<T>& optional<T>::operator=(optional&& rhs) noexcept\n{\n    if (this != &rhs)", "optional<T>& optional<T>::operator=(optional&& rhs) noexcept\n{\n    if (true)"))
m("P25", "opt_value_unchecked", "bad", (OPT, "inline T& optional<T>::value() & noexcept\n{\n    IOX_ENFORCE(has_value(), \"Calling 'value' on an 'optional' which does not have a value\");", "inline T& optional<T>::value() & noexcept\n{"))
m("P25", "opt_rebuild", "ok", (OPT, "            value() = rhs.value();", "            destruct_value();\n            construct_value(rhs.value());"))
m("P25", "opt_vassign", "bad", (OPT, "    if (m_hasValue)\n    {\n        value() = std::forward<U>(newValue);\n    }\n    else\n    {\n        construct_value(std::forward<U>(newValue));\n    }", "    construct_value(std::forward<U>(newValue));"))
m("P25", "var_assign_nodtor", "bad", (VAR, "variant<Types...>& variant<Types...>::operator=(const variant& rhs) noexcept\n{\n    if (this != &rhs)\n    {\n        if (m_type_index != rhs.m_type_index)\n        {\n            call_element_destructor();", "variant<Types...>& variant<Types...>::operator=(const variant& rhs) noexcept\n{\n    if (this != &rhs)\n    {\n        if (m_type_index != rhs.m_type_index)\n        {"))
m("P25", "var_emplace_order", "bad", (VAR, "    call_element_destructor();\n    // AXIVION Next Construct AutosarC++19_03-A18.5.10, FaultDetection-IndirectAssignmentOverflow : m_storage is aligned to the maximum alignment of Types\n    new (&m_storage) T(std::forward<CTorArguments>(args)...);\n    m_type_index = TypeIndex;", "    m_type_index = TypeIndex;\n    call_element_destructor();\n    new (&m_storage) T(std::forward<CTorArguments>(args)...);"))
m("P25", "var_get", "bad", (VAR, "    if (TypeIndex != m_type_index)\n    {\n        return nullptr;\n    }\n", "    if (m_type_index == INVALID_VARIANT_INDEX)\n    {\n        return nullptr;\n    }\n"))
m("P25", "uptr_noself", "bad", (UPT, "    if (this != &rhs)\n    {\n        destroy();", "    if (m_ptr != nullptr)\n    {\n        destroy();"))
m("P25", "uptr_deleter_first", "bad", (UPT, "        destroy();\n        m_ptr = rhs.m_ptr;\n        m_deleter = std::move(rhs.m_deleter);", "        m_deleter = std::move(rhs.m_deleter);\n        destroy();\n        m_ptr = rhs.m_ptr;"))
m("P25", "uptr_release_keep", "bad", (UPT, "    auto owned = std::move(ptrToBeReleased);\n    auto* const ptr{owned.m_ptr};\n    owned.m_ptr = nullptr;", "    auto* const ptr{ptrToBeReleased.m_ptr};"))
m("P25", "uptr_move_keep", "bad", (UPT, "    , m_deleter{std::move(rhs.m_deleter)}\n{\n    rhs.m_ptr = nullptr;", "    , m_deleter{std::move(rhs.m_deleter)}\n{"))

# ------------------------------------------------------------------ P26
MP = "iceoryx_posh/source/roudi/memory/memory_provider.cpp"
RM = "iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp"
MC = "iceoryx_posh/source/roudi/memory/mempool_collection_memory_block.cpp"
MS = "iceoryx_posh/source/roudi/memory/mempool_segment_manager_memory_block.cpp"
PB = "iceoryx_posh/source/roudi/memory/port_pool_memory_block.cpp"
SP = "iceoryx_posh/source/roudi/memory/posix_shm_memory_provider.cpp"
GB = "iceoryx_posh/include/iceoryx_posh/internal/roudi/memory/generic_memory_block.inl"
IM = "iceoryx_posh/include/iceoryx_posh/roudi/memory/iceoryx_roudi_memory_manager.hpp"
m("P26", "p26_sum_noalign", "bad", (MP, "totalSize = align(totalSize, alignment) + size;", "totalSize += size;"))
m("P26", "p26_sum_outer", "bad", (MP, "totalSize = align(totalSize, alignment) + size;", "totalSize = align(totalSize + memoryBlock->size(), alignment);"))
m("P26", "p26_sum_rawsize", "ok", (MP, "auto size = align(memoryBlock->size(), alignment);", "auto size = memoryBlock->size();"))
m("P26", "p26_sum_nested", "ok", (MP, "totalSize = align(totalSize, alignment) + size;", "totalSize = align(align(totalSize, alignment) + memoryBlock->size(), alignment);\n        (void)size;"))
m("P26", "p26_max_last", "bad", (MP, "        if (alignment > maxAlignment)\n        {\n            maxAlignment = alignment;\n        }", "        maxAlignment = alignment;"))
m("P26", "p26_max_min", "bad", (MP, "if (alignment > maxAlignment)", "if (maxAlignment > alignment)"))
m("P26", "p26_max_std", "ok", (MP, "        if (alignment > maxAlignment)\n        {\n            maxAlignment = alignment;\n        }", "        maxAlignment = alignment < maxAlignment ? maxAlignment : alignment;"))
m("P26", "p26_reg_part", "bad", (MP, "UntypedRelativePointer::registerPtr(m_memory, m_size)", "UntypedRelativePointer::registerPtr(m_memory, m_size - m_memoryBlocks.back()->size())"))
m("P26", "p26_reg_before", "bad", (MP, "    m_size = totalSize;\n", ""), (MP, "    m_segmentId = maybeSegmentId.value();", "    m_segmentId = maybeSegmentId.value();\n    m_size = totalSize;"))
m("P26", "p26_alloc_one", "bad", (MP, "allocator.allocate(memoryBlock->size(), memoryBlock->alignment())", "allocator.allocate(memoryBlock->size(), 1U)"))
m("P26", "p26_alloc_skip", "bad", (MP, "            return err(MemoryProviderError::MEMORY_ALLOCATION_FAILED);", "            continue;"))
m("P26", "p26_destroy_order", "bad", (MP, "    for (auto* memoryBlock : m_memoryBlocks)\n    {\n        memoryBlock->destroy();\n    }\n\n    auto destructionResult = destroyMemory();", "    auto destructionResult = destroyMemory();\n    for (auto* memoryBlock : m_memoryBlocks)\n    {\n        memoryBlock->destroy();\n    }\n"))
m("P26", "p26_destroy_first", "bad", (MP, "        memoryBlock->destroy();\n", "        memoryBlock->destroy();\n        break;\n"))
m("P26", "p26_unreg_late", "bad", (MP, "    if (!destructionResult.has_error())\n", "    if (destructionResult.has_value() && m_size > 1)\n"))
m("P26", "p26_keep_mem", "bad", (MP, "        m_memory = nullptr;\n        m_size = 0U;", "        m_size = 0U;"))
m("P26", "p26_unreg_never", "bad", (MP, "        UntypedRelativePointer::unregisterPtr(segment_id_t{m_segmentId});\n", ""))
m("P26", "p26_announce_base", "bad", (MP, "memoryBlock->onMemoryAvailable(memoryBlock->m_memory);", "memoryBlock->onMemoryAvailable(m_memory);"))
m("P26", "p26_announce_again", "bad", (MP, "        m_memoryAvailableAnnounced = true;\n", ""))
m("P26", "p26_announce_early", "bad", (RM, "            return err(RouDiMemoryManagerError::MEMORY_CREATION_FAILED);\n        }\n", "            return err(RouDiMemoryManagerError::MEMORY_CREATION_FAILED);\n        }\n        memoryProvider->announceMemoryAvailable();\n"))
m("P26", "p26_create_go_on", "bad", (RM, "            return err(RouDiMemoryManagerError::MEMORY_CREATION_FAILED);\n", ""))
m("P26", "p26_destroy_stop", "bad", (RM, "                result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n", "                result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n                break;\n"))
m("P26", "p26_destroy_silent", "bad", (RM, "destructionResult.error() != MemoryProviderError::MEMORY_NOT_AVAILABLE)", "destructionResult.error() == MemoryProviderError::MEMORY_NOT_AVAILABLE)"))
m("P26", "p26_destroy_last", "bad", (RM, "            if (!result.has_error())\n            {\n                result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n            }\n        }\n", "            result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n        }\n        else\n        {\n            result = ok();\n        }\n"))
m("P26", "p26_destroy_always", "ok", (RM, "            if (!result.has_error())\n            {\n                result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n            }\n", "            result = err(RouDiMemoryManagerError::MEMORY_DESTRUCTION_FAILED);\n"))
m("P26", "p26_coll_size", "bad", (MC, "requiredFullMemorySize", "requiredManagementMemorySize"))
m("P26", "p26_seg_size", "bad", (MS, "    return align(segmentManagerSize, mepoo::MemPool::CHUNK_MEMORY_ALIGNMENT)\n           + ", "    return segmentManagerSize - alignment() + "))
m("P26", "p26_seg_size2", "ok", (MS, "    return align(segmentManagerSize, mepoo::MemPool::CHUNK_MEMORY_ALIGNMENT)\n           + mepoo::SegmentManager<>::requiredManagementMemorySize(m_segmentConfig);", "    const auto managed = mepoo::SegmentManager<>::requiredManagementMemorySize(m_segmentConfig);\n    return managed + align(segmentManagerSize, mepoo::MemPool::CHUNK_MEMORY_ALIGNMENT);"))
m("P26", "p26_coll_twice", "bad", (MC, "        m_memoryManager = nullptr;\n", ""))
m("P26", "p26_port_align", "bad", (PB, "return alignof(PortPoolData);", "return alignof(uint32_t);"))
m("P26", "p26_coll_two", "bad", (MC, "    m_memoryManager->configureMemoryManager(m_memPoolConfig, allocator, allocator);", "    BumpAllocator payload(memory, size());\n    m_memoryManager->configureMemoryManager(m_memPoolConfig, allocator, payload);"))
m("P26", "p26_page", "bad", (SP, "if (alignment > detail::pageSize())", "if (alignment > 2U * detail::pageSize())"))
m("P26", "p26_shm_null", "bad", (SP, "    if (baseAddress == nullptr)\n    {\n        return err(MemoryProviderError::MEMORY_CREATION_FAILED);\n    }\n", ""))
m("P26", "p26_g_over", "bad", (GB, "    destroy();\n\n    auto rawMemory", "    auto rawMemory"))
m("P26", "p26_lock_first", "bad", (IM, "    FileLock m_fileLock;\n", ""), (IM, "    RouDiMemoryManager m_memoryManager;\n", "    RouDiMemoryManager m_memoryManager;\n    FileLock m_fileLock;\n"))
m("P26", "p26_mgr_first", "bad", (IM, "    RouDiMemoryManager m_memoryManager;\n", ""), (IM, "    PortPoolMemoryBlock m_portPoolBlock;\n", "    RouDiMemoryManager m_memoryManager;\n    PortPoolMemoryBlock m_portPoolBlock;\n"))

# ---- P27
CB = "iceoryx_binding_c/source/"
m("P27", "p27_enum_swap", "bad", (CB + "c2cpp_enum_translation.cpp", "case ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER:\n        return iox::popo::ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;", "case ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER:\n        return iox::popo::ConsumerTooSlowPolicy::DISCARD_OLDEST_DATA;"))
m("P27", "p27_nodename_len", "bad", (CB + "c_client.cpp", "clientOptions.connectOnCreate = options->connectOnCreate;", "clientOptions.connectOnCreate = options->connectOnCreate || options->responseQueueCapacity > 1U;"))
m("P27", "p27_opt_drop", "bad", (CB + "c_subscriber.cpp", "        subscriberOptions.requiresPublisherHistorySupport = options->requirePublisherHistorySupport;\n", ""))
m("P27", "p27_opt_cross", "bad", (CB + "c_client.cpp", "        clientOptions.serverTooSlowPolicy = c2cpp::consumerTooSlowPolicy(options->serverTooSlowPolicy);\n", "        clientOptions.serverTooSlowPolicy = c2cpp::consumerTooSlowPolicy(options->responseQueueFullPolicy == QueueFullPolicy_BLOCK_PRODUCER ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA);\n"))
m("P27", "p27_take_twice", "bad", (CB + "c_subscriber.cpp", "    *userPayload = result.value()->userPayload();", "    SubscriberPortUser(self->m_portData).releaseChunk(result.value());\n    *userPayload = result.value()->userPayload();"))
m("P27", "p27_ok_on_err", "bad", (CB + "c_client.cpp", "        return cpp2c::clientSendResult(result.error());\n", "        self->releaseRequest(payload);\n"))
m("P27", "p27_ws_missed", "bad", (CB + "c_wait_set.cpp", "        *missedElements = 0U;\n", ""))
m("P27", "p27_ws_cap", "bad", (CB + "c_wait_set.cpp", "i < notificationInfoArraySize; ++i)", "i < triggerVectorSize; ++i)"))
m("P27", "p27_ws_context", "bad", (CB + "c_wait_set.cpp", "    notificationCallback.m_contextData = contextData;\n\n    auto result =\n        self->attachState(*subscriber, c2cpp::subscriberState(subscriberState), eventId, notificationCallback);", "    auto result =\n        self->attachState(*subscriber, c2cpp::subscriberState(subscriberState), eventId, notificationCallback);"))
m("P27", "p27_find_le", "bad", (CB + "c_service_discovery.cpp", "if (currentSize < serviceContainerCapacity)", "if (currentSize <= serviceContainerCapacity)"))
m("P27", "p27_find_min", "ok", (CB + "c_service_discovery.cpp", "        if (currentSize < serviceContainerCapacity)\n        {\n            serviceContainer[currentSize] = TranslateServiceDescription(s);\n            ++currentSize;\n        }\n        else\n        {\n            ++(*missedServices);\n        }", "        if (currentSize >= serviceContainerCapacity)\n        {\n            *missedServices += 1U;\n            return;\n        }\n        serviceContainer[currentSize++] = TranslateServiceDescription(s);"))
m("P27", "p27_deinit_leak", "bad", (CB + "c_client.cpp", "    delete self;\n", "    if (!self->hasResponses())\n    {\n        delete self;\n    }\n"))
m("P27", "p27_sub_order", "bad", (CB + "cpp2c_subscriber.cpp", "    m_trigger.reset();\n    if (m_portData)", "    if (m_portData)"))
m("P27", "p27_loan_kept", "ok", (CB + "c_client.cpp", "    auto result = self->loan(payloadSize, payloadAlignment);\n    if (result.has_error())\n    {\n        return cpp2c::allocationResult(result.error());\n    }\n\n    *payload = result.value();\n    return AllocationResult_SUCCESS;", "    auto result = self->loan(payloadSize, payloadAlignment);\n    if (result.has_value())\n    {\n        *payload = result.value();\n        return AllocationResult_SUCCESS;\n    }\n    return cpp2c::allocationResult(result.error());"))
m("P27", "p27_sub_event", "bad", (CB + "cpp2c_subscriber.cpp", "    case SubscriberEvent::DATA_RECEIVED:\n        m_trigger.reset();\n        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();", "    case SubscriberEvent::DATA_RECEIVED:\n        m_trigger.reset();"))
m("P26", "p26_page_ge", "bad", (SP, "if (alignment > detail::pageSize())", "if (alignment >= detail::pageSize())"))
m("P26", "p26_no_conf", "bad", (MC, "    m_memoryManager->configureMemoryManager(m_memPoolConfig, allocator, allocator);", ""))
m("P26", "p26_add_never", "bad", (MP, "    if (isAvailable())\n    {\n        return err(MemoryProviderError::MEMORY_ALREADY_CREATED);\n    }\n\n    if (m_memoryBlocks.push_back", "    if (isAvailable() || true)\n    {\n        return err(MemoryProviderError::MEMORY_ALREADY_CREATED);\n    }\n\n    if (m_memoryBlocks.push_back"))
m("P26", "p26_destroy_never_err", "bad", (RM, "if (destructionResult.has_error() && destructionResult", "if (false && destructionResult.has_error() && destructionResult"))
m("P27", "p27_enforce_inv", "bad", (CB + "c_server.cpp", "void iox_server_stop_offer(iox_server_t const self)\n{\n    IOX_ENFORCE(self != nullptr", "void iox_server_stop_offer(iox_server_t const self)\n{\n    IOX_ENFORCE(self == nullptr"))
m("P27", "p27_storage", "bad", (CB + "c_service_discovery.cpp", "    self->do_not_touch_me[0] = reinterpret_cast<uint64_t>(me);\n", ""))
m("P27", "p27_opt_null", "bad", (CB + "c_subscriber.cpp", "    if (options != nullptr)\n    {", "    if (options != nullptr || true)\n    {"))
m("P27", "p27_opt_fatal", "bad", (CB + "c_publisher.cpp", "if (!iox_pub_options_is_initialized(options))", "if (iox_pub_options_is_initialized(options))"))
PMC = "iceoryx_posh/source/roudi/process_manager.cpp"
m("P18", "p18_client_noseg", "bad", (PMC, "            if (!segmentInfo.m_memoryManager.has_value())\n            {\n                // Tell the app no writable shared memory segment was found\n                runtime::IpcMessage sendBuffer;\n                sendBuffer << runtime::IpcMessageTypeToString(runtime::IpcMessageType::ERROR_RESPONSE);\n                sendBuffer << runtime::IpcMessageErrorTypeToString(\n                    runtime::IpcMessageErrorType::REQUEST_CLIENT_NO_WRITABLE_SHM_SEGMENT);\n                process->sendViaIpcChannel(sendBuffer);\n                return;\n            }\n", ""))
m("P18", "p18_client_noret", "bad", (PMC, "                    runtime::IpcMessageErrorType::REQUEST_CLIENT_NO_WRITABLE_SHM_SEGMENT);\n                process->sendViaIpcChannel(sendBuffer);\n                return;\n", "                    runtime::IpcMessageErrorType::REQUEST_CLIENT_NO_WRITABLE_SHM_SEGMENT);\n                process->sendViaIpcChannel(sendBuffer);\n"))
IB = "iceoryx_posh/source/runtime/ipc_interface_base.cpp"
m("P19", "p19_send_invalid", "bad", (IB, "    if (!msg.isValid())\n    {\n        IOX_LOG(Error,\n                \"Trying to send the message \" << msg.getMessage() << \" which \"\n                                              << \"does not follow the specified syntax.\");\n        return false;\n    }\n\n    auto logLengthError", "    auto logLengthError"))
IM2 = "iceoryx_posh/source/runtime/ipc_message.cpp"
m("P18", "p18_setmsg", "bad", (IM2, "    if (!m_msg.empty() && m_msg.back() != m_separator)", "    if (!m_msg.empty() && m_msg.front() == m_separator)"))
SZ = "iceoryx_hoofs/utility/include/iox/detail/serialization.inl"
m("P18", "p18_ser_len", "bad", (SZ, "if (remainder.size() - pos - 1U < length)", "if (remainder.size() - pos < length)"))
m("P18", "p18_ser_novalue", "bad", (SZ, "    if (!result.has_value())\n    {\n        return false;\n    }\n\n    const auto length = result.value();", "    const auto length = result.value_or(0U);"))
TP = "iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp"
CP = "iceoryx_posh/source/roudi/roudi_cmd_line_parser.cpp"
CF = "iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp"
RA = "iceoryx_posh/source/roudi/application/"
m("P28", "p28_swap_groups", "bad", (TP, "reader.c_str(), reader.size()", "writer.c_str(), writer.size()"))
m("P28", "p28_swap_keys", "bad", (TP, 'get_as<std::string>("reader")', 'get_as<std::string>("writer")'))
m("P28", "p28_cfg_outer", "bad", (TP, "        iox::mepoo::MePooConfig mempoolConfig;\n", ""), (TP, "    iox::IceoryxConfig parsedConfig;\n", "    iox::IceoryxConfig parsedConfig;\n    iox::mepoo::MePooConfig mempoolConfig;\n"))
m("P28", "p28_limit", "bad", (TP, "segments->get().size() > iox::MAX_SHM_SEGMENTS", "segments->get().size() >= iox::MAX_SHM_SEGMENTS"))
m("P28", "p28_limit2", "bad", (TP, "mempools->get().size() > iox::MAX_NUMBER_OF_MEMPOOLS", "mempools->get().size() > iox::MAX_NUMBER_OF_MEMPOOLS + 1"))
m("P28", "p28_version", "bad", (TP, "*configFileVersion != 1", "*configFileVersion < 1"))
m("P28", "p28_break", "bad", (TP, "             mempoolConfig});\n", "             mempoolConfig});\n        if (parsedConfig.m_sharedMemorySegments.size() >= 10) { break; }\n"))
m("P28", "p28_zero", "bad", (TP, "            mempoolConfig.addMemPool(", "            if (*chunkCount == 0) { continue; }\n            mempoolConfig.addMemPool("))
m("P28", "p28_swap_sc", "bad", (TP, "{*chunkSize, *chunkCount}", "{*chunkCount, static_cast<uint32_t>(*chunkSize)}"))
m("P28", "p28_opts", "bad", (TP, ".and_then([this](auto& config) {\n        static_cast<RouDiConfig&>(config) = m_roudiConfig;\n    })", ""))
m("P28", "p28_opts2", "bad", (TP, "        static_cast<RouDiConfig&>(defaultConfig) = m_roudiConfig;\n", ""))
m("P28", "p28_open", "bad", (TP, "        return iox::err(iox::roudi::RouDiConfigFileParseError::FILE_OPEN_FAILED);\n", "        iox::IceoryxConfig d; d.setDefaults(); static_cast<RouDiConfig&>(d) = m_roudiConfig; return iox::ok(d);\n"))
m("P28", "p28_named", "bad", (TP, "            m_customConfigFilePath = cmdLineArgs.configFilePath;\n", ""))
m("P28", "p28_domain", "bad", (CP, "auto maybeValue = convert::from_string<uint16_t>(optarg);\n            if (!maybeValue.has_value())\n            {\n                IOX_LOG(Error, \"The RouDi ID", "auto maybeValue = convert::from_string<uint32_t>(optarg);\n            if (!maybeValue.has_value())\n            {\n                IOX_LOG(Error, \"The RouDi ID"), (CP, "roudi::UniqueRouDiId{maybeValue.value()}", "roudi::UniqueRouDiId{static_cast<uint16_t>(maybeValue.value())}"))
m("P28", "p28_kill", "bad", (CP, "m_cmdLineArgs.roudiConfig.processKillDelay = ", "m_cmdLineArgs.roudiConfig.processTerminationDelay = "))
m("P28", "p28_level", "bad", (CP, "LogLevel::Debug", "LogLevel::Trace"))
m("P28", "p28_compat", "bad", (CP, "CompatibilityCheckLevel::COMMIT_ID", "CompatibilityCheckLevel::PATCH"))
m("P28", "p28_prefix", "bad", (CP, 'if (strcmp(optarg, "on") == 0)', 'if (strncmp(optarg, "on", 2) == 0)'))
m("P28", "p28_ignore", "bad", (CP, "                IOX_LOG(Error, \"Options for monitoring-mode are 'on' and 'off'!\");\n                return err(CmdLineParserResult::INVALID_PARAMETER);\n", "                IOX_LOG(Error, \"Options for monitoring-mode are 'on' and 'off'!\");\n"))
m("P28", "p28_long", "bad", (CP, '{"kill-delay", required_argument, nullptr, \'k\'}', '{"kill-delay", required_argument, nullptr, \'t\'}'))
m("P28", "p28_short", "bad", (CP, '"hvm:l:d:u:x:t:k:"', '"hvm:l:d:u:x:t:k"'))
m("P28", "p28_mode", "bad", (CF, "CmdLineParser::parse(argc, argv, CmdLineArgumentParsingMode::ONE)", "CmdLineParser::parse(argc, argv, cmdLineParsingMode)"))
m("P28", "p28_optind", "bad", (CF, "        default:\n        {\n            // We want to parse", "        default:\n        {\n            // We want to parse") if False else (CF, "            if (result.has_error())\n            {\n                return result;\n            }\n", ""))
m("P28", "p28_main", "bad", (RA + "roudi_main.cpp", "    if (!cmdLineArgs.value().run)", "    if (!cmdLineArgs.value().run && argc < 2)"))
m("P28", "p28_main2", "bad", (RA + "roudi_main.cpp", "    iox::config::TomlRouDiConfigFileProvider configFileProvider(cmdLineArgs.value());", "    iox::config::CmdLineArgs_t a; a.configFilePath = cmdLineArgs.value().configFilePath;\n    iox::config::TomlRouDiConfigFileProvider configFileProvider(a);"))
m("P28", "p28_check", "bad", (RA + "roudi_app.cpp", "            return false;\n        }\n    }\n", "            return config.m_sharedMemorySegments.size() > 1;\n        }\n    }\n"))
m("P28", "p28_run", "bad", (RA + "iceoryx_roudi_app.cpp", "    if (m_run)\n", "    if (m_run || m_config.m_sharedMemorySegments.size() > 0)\n"))
m("P28", "p28_ok_ref", "ok", (TP, "for (auto segment : *segments)", "for (const auto& segment : *segments)"), (TP, "for (auto mempool : *mempools)", "for (auto& mempool : *mempools)"))
m("P28", "p28_ok_index", "ok", (TP, "for (auto mempool : *mempools)\n        {", "for (size_t n = 0; n < mempools->get().size(); ++n)\n        {\n            auto mempool = mempools->get()[n];"))
m("P28", "p28_ok_null", "ok", (TP, "if (!general)", "if (general == nullptr)"), (TP, "if (!mempools)", "if (mempools.get() == nullptr)"))
m("P28", "p28_ok_split", "ok", (TP, "if (!configFileVersion || *configFileVersion != 1)\n    {", "if (!configFileVersion)\n    {\n        return iox::err(iox::roudi::RouDiConfigFileParseError::INVALID_CONFIG_FILE_VERSION);\n    }\n    const uint32_t ver = *configFileVersion;\n    if (ver != 1)\n    {"))
m("P28", "p28_ok_entry", "ok", (TP, "mempoolConfig.addMemPool({*chunkSize, *chunkCount});", "const uint64_t sz = *chunkSize; const uint32_t cn = *chunkCount; const iox::mepoo::MePooConfig::Entry entry{sz, cn}; mempoolConfig.addMemPool(entry);"))
m("P28", "p28_ok_limit", "ok", (TP, "segments->get().size() > iox::MAX_SHM_SEGMENTS", "segments->get().size() >= iox::MAX_SHM_SEGMENTS + 1"))
m("P28", "p28_ok_grp", "ok", (TP, "        iox::mepoo::MePooConfig mempoolConfig;\n", "        const PosixGroup::groupName_t readerGroup(iox::TruncateToCapacity, reader.c_str(), reader.size());\n        iox::mepoo::MePooConfig mempoolConfig;\n"), (TP, "{PosixGroup::groupName_t(iox::TruncateToCapacity, reader.c_str(), reader.size()),", "{readerGroup,"))
m("P28", "p28_ok_streq", "ok", (CP, 'if (strcmp(optarg, "on") == 0)\n            {\n                m_cmdLineArgs.roudiConfig.monitoringMode = roudi::MonitoringMode::ON;\n            }\n            else if (strcmp(optarg, "off") == 0)\n            {\n                m_cmdLineArgs.roudiConfig.monitoringMode = roudi::MonitoringMode::OFF;\n            }\n            else\n            {', 'const bool isOn = strcmp(optarg, "on") == 0;\n            const bool isOff = strcmp(optarg, "off") == 0;\n            if (isOn || isOff)\n            {\n                m_cmdLineArgs.roudiConfig.monitoringMode = isOn ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;\n            }\n            else\n            {'))
m("P28", "p28_ok_val", "ok", (CP, "m_cmdLineArgs.roudiConfig.processKillDelay = units::Duration::fromSeconds(maybeValue.value());", "const auto seconds = maybeValue.value();\n            const auto delay = units::Duration::fromSeconds(seconds);\n            m_cmdLineArgs.roudiConfig.processKillDelay = delay;"))
m("P28", "p28_ok_cfg", "ok", (TP, "    return TomlRouDiConfigFileProvider::parse(fileStream).and_then([this](auto& config) {\n        static_cast<RouDiConfig&>(config) = m_roudiConfig;\n    });", "    auto parsed = TomlRouDiConfigFileProvider::parse(fileStream);\n    if (parsed.has_error())\n    {\n        return iox::err(parsed.error());\n    }\n    auto config = parsed.value();\n    static_cast<RouDiConfig&>(config) = m_roudiConfig;\n    return iox::ok(config);"))
m("P28", "p28_ok_main", "ok", (RA + "roudi_main.cpp", "cmdLineArgs.value().run)", "cmdLineArgs->run)"), (RA + "roudi_main.cpp", "    IceOryxRouDiApp roudi(config.value());", "    const auto& readConfig = config.value();\n    IceOryxRouDiApp roudi(readConfig);"))
RMM = "iceoryx_posh/source/roudi/memory/"
m("P28", "p28_seg_domain", "bad", (RMM + "default_roudi_memory.cpp", "m_segmentManagerBlock(config, config.domainId)", "m_segmentManagerBlock(config, DEFAULT_DOMAIN_ID)"))
m("P28", "p28_shm_domain", "bad", (RMM + "default_roudi_memory.cpp", "m_managementShm(SHM_NAME, config.domainId,", "m_managementShm(SHM_NAME, DEFAULT_DOMAIN_ID,"))
m("P28", "p28_roudi_id", "bad", (RMM + "iceoryx_roudi_memory_manager.cpp", "m_portPoolBlock(config.uniqueRouDiId)", "m_portPoolBlock(DEFAULT_UNIQUE_ROUDI_ID)"))
m("P28", "p28_chunks", "bad", (RMM + "default_roudi_memory.cpp", "discoveryMemPoolConfig(config.discoveryChunkCount)", "discoveryMemPoolConfig(config.introspectionChunkCount)"))
m("P28", "p28_block", "bad", (RMM + "default_roudi_memory.cpp", "    m_managementShm.addMemoryBlock(&heartbeatPoolBlock).or_else([](auto) {\n        IOX_REPORT_FATAL(PoshError::ROUDI__DEFAULT_ROUDI_MEMORY_FAILED_TO_ADD_HEARTBEAT_MEMORY_BLOCK);\n    });\n", ""))
m("P28", "p28_prc_compat", "bad", ("iceoryx_posh/source/roudi/roudi.cpp", "               m_roudiConfig.compatibilityCheckLevel)", "               config::RouDiConfig().compatibilityCheckLevel)"))
m("P28", "p28_prc_domain", "bad", ("iceoryx_posh/source/roudi/roudi.cpp", "               m_roudiConfig.domainId,\n", "               config::RouDiConfig().domainId,\n"))

RD = "iceoryx_posh/source/roudi/roudi.cpp"
m("P28", "p28_end_share", "bad", (RD, "    if (!m_roudiConfig.sharesAddressSpaceWithApplications)\n    {\n        deadline_timer", "    {\n        deadline_timer"))
m("P28", "p28_end_delay", "bad", (RD, "deadline_timer finalKillTimer(m_roudiConfig.processKillDelay);", "deadline_timer finalKillTimer(m_roudiConfig.processTerminationDelay);"))
m("P28", "p28_end_or", "bad", (RD, "while (!terminationDelayTimer.hasExpired() && m_prcMgr->registeredProcessCount() > 0)", "while (!terminationDelayTimer.hasExpired() && m_prcMgr->registeredProcessCount() > 1)"))
m("P28", "p28_end_kill", "bad", (RD, "if (m_prcMgr->probeRegisteredProcessesAliveWithSigTerm() && finalKillTimer.hasExpired())", "if (m_prcMgr->probeRegisteredProcessesAliveWithSigTerm())"))
m("P28", "p28_end_timer", "bad", (RD, "        m_prcMgr->requestShutdownOfAllProcesses();\n\n        deadline_timer finalKillTimer(m_roudiConfig.processKillDelay);", "        deadline_timer finalKillTimer(m_roudiConfig.processKillDelay);\n        m_prcMgr->requestShutdownOfAllProcesses();\n"))
m("P28", "p28_end_ask", "bad", (RD, "        m_prcMgr->requestShutdownOfAllProcesses();\n", "        if (!terminationDelayTimer.hasExpired()) { m_prcMgr->requestShutdownOfAllProcesses(); }\n"))
m("P28", "p28_end_told", "bad", (RD, "    m_runHandleRuntimeMessageThread = false;\n\n    if (m_handle", "    if (m_handle"))
m("P28", "p28_chan", "bad", (RD, "IPC_CHANNEL_ROUDI_NAME, m_roudiConfig.domainId, ", "IPC_CHANNEL_ROUDI_NAME, DEFAULT_DOMAIN_ID, "))
m("P28", "p28_end_ok", "ok", (RD, "while (!terminationDelayTimer.hasExpired() && m_prcMgr->registeredProcessCount() > 0)", "while (m_prcMgr->registeredProcessCount() != 0 && !terminationDelayTimer.hasExpired())"), (RD, "deadline_timer finalKillTimer(m_roudiConfig.processKillDelay);", "const auto killDelay = m_roudiConfig.processKillDelay;\n        deadline_timer finalKillTimer(killDelay);"))
m("P28", "p28_end_ok2", "ok", (RD, "if (m_prcMgr->probeRegisteredProcessesAliveWithSigTerm() && finalKillTimer.hasExpired())\n        {", "const bool alive = m_prcMgr->probeRegisteredProcessesAliveWithSigTerm();\n        const bool late = finalKillTimer.hasExpired();\n        if (alive && late)\n        {"))
m("P28", "p28_end_ok3", "ok", (RD, "while (!terminationDelayTimer.hasExpired() && m_prcMgr->registeredProcessCount() > 0)\n        {", "for (;;)\n        {\n            if (terminationDelayTimer.hasExpired()) { break; }\n            const auto left = m_prcMgr->registeredProcessCount();\n            if (left < 1U) { break; }"))
m("P28", "p28_nocatch", "bad", (TP, "catch (const std::exception& parserException)", "catch (const std::bad_alloc& parserException)"))
m("P28", "p28_helper", "bad", (TP, "iox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>\nTomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept", "static uint32_t versionOf(cpptoml::table& t) noexcept { auto v = t.get_as<uint32_t>(\"version\"); return v ? *v : 0; }\niox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>\nTomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept"), (TP, "auto configFileVersion = general->get_as<uint32_t>(\"version\");\n    if (!configFileVersion || *configFileVersion != 1)", "if (versionOf(*general) != 1)"))
m("P28", "p28_tryin", "ok", (TP, "parse(std::istream& stream) noexcept\ntry\n{", "parse(std::istream& stream) noexcept\n{\ntry\n{"), (TP, "    return iox::err(parserError);\n}", "    return iox::err(parserError);\n}\n}"))
m("P28", "p28_catchall", "ok", (TP, "catch (const std::exception& parserException)", "catch (...)"), (TP, ' << ": " << parserException.what()', ""))
m("P28", "p28_helper_ok", "ok", (TP, "iox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>\nTomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept", "static cpptoml::option<uint32_t> versionOf(cpptoml::table& t) { return t.get_as<uint32_t>(\"version\"); }\niox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>\nTomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept"), (TP, "general->get_as<uint32_t>(\"version\");", "versionOf(*general);"))
_SIG = "iox::expected<iox::IceoryxConfig, iox::roudi::RouDiConfigFileParseError>\nTomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept"
_HELP = '''namespace
{
iox::expected<iox::mepoo::MePooConfig, iox::roudi::RouDiConfigFileParseError> readPools(const cpptoml::table_array& mempools)
{
    iox::mepoo::MePooConfig mempoolConfig;
    for (const auto& mempool : mempools)
    {
        auto chunkSize = mempool->get_as<uint64_t>("size");
        auto chunkCount = mempool->get_as<uint32_t>("count");
        if (!chunkSize)
        {
            return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_SIZE);
        }
        if (!chunkCount)
        {
            return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_COUNT);
        }
        mempoolConfig.addMemPool({*chunkSize, *chunkCount});
    }
    return iox::ok(mempoolConfig);
}
}
'''
_LOOP = '''        for (auto mempool : *mempools)
        {
            auto chunkSize = mempool->get_as<uint64_t>("size");
            auto chunkCount = mempool->get_as<uint32_t>("count");
            if (!chunkSize)
            {
                return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_SIZE);
            }
            if (!chunkCount)
            {
                return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_COUNT);
            }
            mempoolConfig.addMemPool({*chunkSize, *chunkCount});
        }
'''
m("P28", "p28_ok_helper2", "ok", (TP, _SIG, _HELP + _SIG), (TP, _LOOP, "        auto pools = readPools(*mempools);\n        if (pools.has_error())\n        {\n            return iox::err(pools.error());\n        }\n"), (TP, "             mempoolConfig});", "             pools.value()});"), (TP, "        iox::mepoo::MePooConfig mempoolConfig;\n", ""))
_VOID = _HELP.replace("iox::expected<iox::mepoo::MePooConfig, iox::roudi::RouDiConfigFileParseError> readPools(const cpptoml::table_array& mempools)", "iox::expected<void, iox::roudi::RouDiConfigFileParseError> readPools(const cpptoml::table_array& mempools, iox::mepoo::MePooConfig& mempoolConfig)").replace("    iox::mepoo::MePooConfig mempoolConfig;\n", "").replace("iox::ok(mempoolConfig)", "iox::ok()")
m("P28", "p28_ok_helper3", "ok", (TP, _SIG, _VOID + _SIG), (TP, _LOOP, "        auto pools = readPools(*mempools, mempoolConfig);\n        if (pools.has_error())\n        {\n            return iox::err(pools.error());\n        }\n"))
m("P28", "p28_ok_helper4", "ok", (TP, _SIG, "namespace\n{\niox::expected<void, iox::roudi::RouDiConfigFileParseError> addPool(const cpptoml::table& mempool, iox::mepoo::MePooConfig& mempoolConfig)\n{\n" + _LOOP.split("{\n", 1)[1].rsplit("        }\n", 1)[0].replace("mempool->", "mempool.") + "    return iox::ok();\n}\n}\n" + _SIG), (TP, _LOOP, "        for (auto mempool : *mempools)\n        {\n            auto added = addPool(*mempool, mempoolConfig);\n            if (!added)\n            {\n                return iox::err(added.error());\n            }\n        }\n"))
m("P28", "p28_helper_bad", "bad", (TP, _SIG, _VOID.replace("_WITHOUT_CHUNK_COUNT", "_WITHOUT_CHUNK_SIZE") + _SIG), (TP, _LOOP, "        auto pools = readPools(*mempools, mempoolConfig);\n        if (pools.has_error())\n        {\n            return iox::err(pools.error());\n        }\n"))
m("P28", "p28_helper_bad2", "bad", (TP, _SIG, _VOID + _SIG), (TP, _LOOP, "        auto pools = readPools(*mempools, mempoolConfig);\n        if (pools.has_error() && mempoolConfig.m_mempoolConfig.empty())\n        {\n            return iox::err(pools.error());\n        }\n"))
_SEG = '''        auto writer = segment->get_as<std::string>("writer").value_or(into<std::string>(groupOfCurrentProcess));
        auto reader = segment->get_as<std::string>("reader").value_or(into<std::string>(groupOfCurrentProcess));
'''
m("P28", "p28_ok_grpfn", "ok", (TP, _SIG, "static std::string groupOf(const cpptoml::table& t, const char* key, const PosixGroup::groupName_t& fallback)\n{\n    return t.get_as<std::string>(key).value_or(into<std::string>(fallback));\n}\n" + _SIG), (TP, _SEG, "        auto writer = groupOf(*segment, \"writer\", groupOfCurrentProcess);\n        auto reader = groupOf(*segment, \"reader\", groupOfCurrentProcess);\n"))
m("P28", "p28_ok_grplam", "ok", (TP, _SEG, "        const auto groupOf = [&](const char* key) { return segment->get_as<std::string>(key).value_or(into<std::string>(groupOfCurrentProcess)); };\n        auto writer = groupOf(\"writer\");\n        auto reader = groupOf(\"reader\");\n"))
_CS = "iox::expected<CmdLineArgs_t, CmdLineParserResult>\nCmdLineParser::parse("
def _between(fn, a, b):
    s = open("/repo/" + fn).read()
    i = s.index(a)
    return s[i:s.index(b, i)]
import re as _re
_cs = _re.search(r"[^\n]*expected<CmdLineArgs_t[^\n]*\n?[^\n]*CmdLineParser::parse\(", open("/repo/" + CP).read()).group(0)
_MON = _between(CP, "            if (strcmp(optarg, \"on\") == 0)", "            break;\n        }\n        case 'l'")
m("P28", "p28_ok_c_bool", "ok", (CP, _cs, "static bool readMode(const char* text, roudi::MonitoringMode& mode)\n{\n    if (strcmp(text, \"on\") == 0) { mode = roudi::MonitoringMode::ON; return true; }\n    if (strcmp(text, \"off\") == 0) { mode = roudi::MonitoringMode::OFF; return true; }\n    return false;\n}\n" + _cs), (CP, _MON, "            if (!readMode(optarg, m_cmdLineArgs.roudiConfig.monitoringMode))\n            {\n                IOX_LOG(Error, \"bad\");\n                return err(CmdLineParserResult::INVALID_PARAMETER);\n            }\n"))
m("P28", "p28_ok_c_opt", "ok", (CP, _cs, "static iox::optional<roudi::MonitoringMode> readMode(const char* text)\n{\n    if (strcmp(text, \"on\") == 0) { return iox::make_optional<roudi::MonitoringMode>(roudi::MonitoringMode::ON); }\n    if (strcmp(text, \"off\") == 0) { return iox::make_optional<roudi::MonitoringMode>(roudi::MonitoringMode::OFF); }\n    return iox::nullopt;\n}\n" + _cs), (CP, _MON, "            auto mode = readMode(optarg);\n            if (!mode.has_value())\n            {\n                IOX_LOG(Error, \"bad\");\n                return err(CmdLineParserResult::INVALID_PARAMETER);\n            }\n            m_cmdLineArgs.roudiConfig.monitoringMode = mode.value();\n"))
_KILL = _between(CP, "            auto maybeValue = convert::from_string<uint32_t>(optarg);\n            if (!maybeValue.has_value())\n            {\n                IOX_LOG(Error, \"The process kill", "            break;\n        }\n        case 'x'")
m("P28", "p28_ok_c_dur", "ok", (CP, _cs, "static bool readDelay(const char* text, units::Duration& delay)\n{\n    auto maybeValue = convert::from_string<uint32_t>(text);\n    if (!maybeValue.has_value()) { return false; }\n    delay = units::Duration::fromSeconds(maybeValue.value());\n    return true;\n}\n" + _cs), (CP, _KILL, "            if (!readDelay(optarg, m_cmdLineArgs.roudiConfig.processKillDelay))\n            {\n                IOX_LOG(Error, \"bad \" << MAX_PROCESS_KILL_DELAY);\n                return err(CmdLineParserResult::INVALID_PARAMETER);\n            }\n"))
_dbg = "static bool is(const char* a, const char* b) { return strcmp(a, b) == 0; }\n"
m("P28", "p28_ok_c_is", "ok", (CP, _cs, _dbg + _cs), (CP, _MON, _MON.replace("strcmp(optarg, \"on\") == 0", "is(optarg, \"on\")").replace("strcmp(optarg, \"off\") == 0", "is(optarg, \"off\")")))
m("P28", "p28_ok_c_str", "ok", (CP, _MON, _MON.replace("strcmp(optarg, \"on\") == 0", "std::string(optarg) == \"on\"").replace("strcmp(optarg, \"off\") == 0", "std::string(optarg) == \"off\"")))
_GR = _between(RD, "        deadline_timer terminationDelayTimer(", "        m_prcMgr->requestShutdownOfAllProcesses();")
m("P28", "p28_ok_r_lam", "ok", (RD, _GR, "        const auto waitForApplications = [&] {\n" + _GR + "        };\n        waitForApplications();\n"))
_KL = _between(RD, "        if (m_prcMgr->probeRegisteredProcessesAliveWithSigTerm() && finalKillTimer.hasExpired())", "        if (m_prcMgr->probeRegisteredProcessesAliveWithSigTerm())\n")
m("P28", "p28_ok_r_nest", "ok", (RD, "m_prcMgr->probeRegisteredProcessesAliveWithSigTerm() && finalKillTimer.hasExpired())\n        {", "m_prcMgr->probeRegisteredProcessesAliveWithSigTerm())\n        if (finalKillTimer.hasExpired())\n        {"))
_P = CB + "c_publisher.cpp"
_OPT = _between(_P, "        publisherOptions.historyCapacity = options->historyCapacity;", "    }\n\n    auto* me = new")
_PI = "iox_pub_t iox_pub_init(iox_pub_storage_t* self,"
m("P27", "p27_ok_opthelp", "ok", (_P, _PI, "static void takeOver(const iox_pub_options_t& options, PublisherOptions& publisherOptions)\n{\n" + _OPT.replace("options->", "options.").replace("publisherOptions.", "publisherOptions.") + "}\n" + _PI), (_P, _OPT, "        takeOver(*options, publisherOptions);\n"))
m("P27", "p27_ok_optret", "ok", (_P, _PI, "static PublisherOptions toOptions(const iox_pub_options_t* options)\n{\n    PublisherOptions publisherOptions;\n    if (options == nullptr) { return publisherOptions; }\n    if (!iox_pub_options_is_initialized(options))\n    {\n        IOX_REPORT_FATAL(CBindingError::BINDING_C__PUBLISHER_OPTIONS_NOT_INITIALIZED);\n    }\n" + _OPT + "    return publisherOptions;\n}\n" + _PI), (_P, _between(_P, "    PublisherOptions publisherOptions;\n\n    // use default", "    auto* me = new"), "    const auto publisherOptions = toOptions(options);\n"))
m("P27", "p27_ok_desc", "ok", (_P, _PI, "static ServiceDescription describe(const char* s, const char* i, const char* e)\n{\n    return ServiceDescription(IdString_t(TruncateToCapacity, s), IdString_t(TruncateToCapacity, i), IdString_t(TruncateToCapacity, e));\n}\n" + _PI), (_P, _between(_P, "        ServiceDescription{\n", "        publisherOptions);"), "        describe(service, instance, event),\n"))
m("P27", "p27_ok_desc2", "ok", (_P, _between(_P, "    me->m_portData = PoshRuntime", "    return me;"), "    const IdString_t s(TruncateToCapacity, service);\n    const IdString_t i(TruncateToCapacity, instance);\n    const IdString_t e(TruncateToCapacity, event);\n    const ServiceDescription description(s, i, e);\n    auto& runtime = PoshRuntime::getInstance();\n    me->m_portData = runtime.getMiddlewarePublisher(description, publisherOptions);\n"))
_L = CB + "c_listener.cpp"
_AT = _between(_L, "    auto result =\n        self->attachEvent(*subscriber,", "}\n\nenum iox_ListenerResult\niox_listener_attach_subscriber_event_with_context")
m("P27", "p27_ok_tern", "ok", (_L, _AT, _AT.split("    if (result")[0] + "    return result.has_error() ? cpp2c::listenerResult(result.error()) : ListenerResult_SUCCESS;\n"))

SC = "iceoryx_posh/source/mepoo/shared_chunk.cpp"
SU8 = "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"
MPL = "iceoryx_posh/source/mepoo/mem_pool.cpp"
MMG = "iceoryx_posh/source/mepoo/memory_manager.cpp"
UCL = "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"
DEC = """    if ((m_chunkManagement != nullptr)
        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
    {
"""
m("P01", "x-dec-load", "bad", (SC, DEC, """    if (m_chunkManagement == nullptr)
    {
        return;
    }
    if (m_chunkManagement->m_referenceCounter.load(std::memory_order_acquire) > 1U)
    {
        m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel);
    }
    else
    {
"""))
m("P01", "x-dec-acq", "bad", (SC, "fetch_sub(1U, std::memory_order_acq_rel)", "fetch_sub(1U, std::memory_order_acquire)"))
m("P01", "x-dec-fence", "ok", (SC, DEC, """    if ((m_chunkManagement != nullptr)
        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_release) == 1U))
    {
        std::atomic_thread_fence(std::memory_order_acquire);
"""))
m("P01", "x-copy-swap", "ok", (SC, """        decrementReferenceCounter();
        m_chunkManagement = rhs.m_chunkManagement;
        incrementReferenceCounter();
""", """        SharedChunk previous(m_chunkManagement);
        m_chunkManagement = rhs.m_chunkManagement;
        incrementReferenceCounter();
"""))
m("P01", "x-move-self", "bad", (SC, """    if (this != &rhs)
    {
        decrementReferenceCounter();
        m_chunkManagement = std::move""", """    {
        decrementReferenceCounter();
        m_chunkManagement = std::move"""))
m("P01", "x-clone-racy", "bad", (SU8, "chunkMgmt->m_referenceCounter.fetch_add(1U, std::memory_order_relaxed);", "chunkMgmt->m_referenceCounter.store(chunkMgmt->m_referenceCounter.load(std::memory_order_relaxed) + 1U, std::memory_order_relaxed);"))
m("P01", "x-sole-relaxed", "bad", (SU8, "m_referenceCounter.load(std::memory_order_acquire) == 1U", "m_referenceCounter.load(std::memory_order_relaxed) == 1U"))
m("P01", "x-rel-noreset", "bad", (SU8, "    m_chunkManagement.reset();\n", ""))
m("P02", "x-idx32", "bad", (MPL, "const auto offset = static_cast<uint64_t>(index) * chunkSize;", "const auto offset = index * static_cast<uint32_t>(chunkSize);"))
m("P02", "x-alloc32", "bad", (MPL, "static_cast<uint64_t>(m_numberOfChunks) * m_chunkSize, CHUNK", "m_numberOfChunks * static_cast<uint32_t>(m_chunkSize), CHUNK"))
m("P02", "x-ptr32", "bad", (MPL, "static_cast<uint64_t>(static_cast<const uint8_t*>(chunk) - static_cast<const uint8_t*>(rawMemoryBase));", "static_cast<uint32_t>(static_cast<const uint8_t*>(chunk) - static_cast<const uint8_t*>(rawMemoryBase));"))
m("P02", "x-order", "bad", (MMG, "    chunkManagement.m_chunkManagementPool->freeChunk(&chunkManagement);\n    // NOTE: chunkManagement is a dangling reference from here on out\n\n    mempool->freeChunk(chunkHeader);", "    mempool->freeChunk(chunkHeader);\n    chunkManagement.m_chunkManagementPool->freeChunk(&chunkManagement);"))
m("P02", "x-used-racy", "bad", (MPL, "m_usedChunks.fetch_sub(1U, std::memory_order_relaxed);", "m_usedChunks.store(m_usedChunks.load(std::memory_order_relaxed) - 1U, std::memory_order_relaxed);"))
m("P02", "x-req32", "bad", (MMG, "align(static_cast<uint64_t>(mempoolConfig.m_chunkCount)\n                                * MemoryManager::sizeWithChunkHeaderStruct(mempoolConfig.m_size),", "align(static_cast<uint64_t>(mempoolConfig.m_chunkCount\n                                * static_cast<uint32_t>(MemoryManager::sizeWithChunkHeaderStruct(mempoolConfig.m_size))),"))
m("P02", "x-last-ge", "ok", (MPL, "const auto offsetToLastChunk = m_chunkSize * (m_numberOfChunks - 1U);", "const auto poolSize = m_chunkSize * m_numberOfChunks;"), (MPL, "if (chunk > static_cast<uint8_t*>(memPoolStartAddress) + offsetToLastChunk)", "if (chunk >= static_cast<uint8_t*>(memPoolStartAddress) + poolSize)"))
m("P02", "x-mgmt-free-late", "ok", (MMG, "    const auto mempool = chunkManagement.m_mempool;\n", "    const auto mempool = chunkManagement.m_mempool;\n    const auto managementPool = chunkManagement.m_chunkManagementPool;\n"), (MMG, "chunkManagement.m_chunkManagementPool->freeChunk(&chunkManagement);", "managementPool->freeChunk(&chunkManagement);"))
m("P07", "x-early-pub", "bad", (UCL, "        m_listData[m_usedListHead] = DataElement_t(chunk);\n\n        // set freeListHead to the next free entry\n        m_freeListHead = nextFree;\n\n        m_synchronizer.clear(std::memory_order_release);\n", "        m_freeListHead = nextFree;\n        m_synchronizer.clear(std::memory_order_release);\n        m_listData[m_usedListHead] = DataElement_t(chunk);\n"))
m("P07", "x-clean-links", "bad", (UCL, "    for (auto& data : m_listData)\n    {\n        if (!data", "    for (auto i = m_usedListHead; i != INVALID_INDEX; i = m_listIndices[i])\n    {\n        auto& data = m_listData[i];\n        if (!data"), (UCL, "    // clear data\n    for (auto& data : m_listData)\n    {\n        data.releaseToSharedChunk();\n    }\n", "    for (auto& data : m_listData)\n    {\n        data = DATA_ELEMENT_LOGICAL_NULLPTR;\n    }\n"))
m("P07", "x-clean-relaxed", "bad", (UCL, "m_synchronizer.test_and_set(std::memory_order_acquire);", "m_synchronizer.test_and_set(std::memory_order_relaxed);"))
m("P07", "x-dup", "bad", (UCL, "m_usedListHead = m_listIndices[current];\n", "m_usedListHead = m_freeListHead;\n"))
m("P02", "x-fit32", "bad", (MMG, "const auto requiredChunkSize = chunkSettings", "const auto requiredChunkSize = static_cast<uint32_t>(chunkSettings"), (MMG, "chunkSettings.requiredChunkSize();", "chunkSettings.requiredChunkSize());")) if False else None
m("P02", "x-fit32b", "bad", (MMG, "const auto requiredChunkSize = chunkSettings.requiredChunkSize();", "const auto requiredChunkSize = static_cast<uint32_t>(chunkSettings.requiredChunkSize());"))
m("P02", "x-acq32", "bad", (MMG, "    uint64_t aquiredChunkSize = 0U;", "    uint32_t aquiredChunkSize = 0U;"), (MMG, "aquiredChunkSize = chunkSizeOfMemPool;", "aquiredChunkSize = static_cast<uint32_t>(chunkSizeOfMemPool);"))
m("P02", "x-mem32", "bad", (MMG, "    uint64_t memorySize{0};", "    uint32_t memorySize{0};"), (MMG, "        memorySize += align(static_cast<uint64_t>(mempoolConfig", "        memorySize += static_cast<uint32_t>(align(static_cast<uint64_t>(mempoolConfig"), (MMG, "m_size),\n                            MemPool::CHUNK_MEMORY_ALIGNMENT);", "m_size),\n                            MemPool::CHUNK_MEMORY_ALIGNMENT));"))
m("P02", "x-adj32", "bad", (MMG, "uint64_t adjustedChunkSize = sizeWithChunkHeaderStruct(static_cast<uint64_t>(chunkPayloadSize));", "uint32_t adjustedChunkSize = static_cast<uint32_t>(sizeWithChunkHeaderStruct(static_cast<uint64_t>(chunkPayloadSize)));"))
m("P02", "x-last32", "bad", (MPL, "m_chunkSize * (m_numberOfChunks - 1U);", "static_cast<uint32_t>(m_chunkSize) * (m_numberOfChunks - 1U);"))
m("P02", "x-cast-ok", "ok", (MPL, "const auto offset = static_cast<uint64_t>(index) * chunkSize;", "const uint64_t wideIndex{index};\n    const auto offset = chunkSize * static_cast<uint32_t>(wideIndex);"))
MPV = "iceoryx_posh/source/roudi/memory/memory_provider.cpp"
MCB = "iceoryx_posh/source/roudi/memory/mempool_collection_memory_block.cpp"
RPI = "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl"
SHU = "iceoryx_posh/source/runtime/shared_memory_user.cpp"
PSO = "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp"
m("P26", "w-total32", "bad", (MPV, "totalSize = align(totalSize, alignment) + size;", "totalSize = static_cast<uint32_t>(align(totalSize, alignment) + size);"))
m("P26", "w-blocksize32", "bad", (MCB, "return ", "return static_cast<uint32_t>(0U) + ")) if False else None
m("P26", "w-alloc32", "bad", (MPV, "allocator.allocate(memoryBlock->size(), memoryBlock->alignment());", "allocator.allocate(static_cast<uint32_t>(memoryBlock->size()), memoryBlock->alignment());"))
m("P23", "w-getptr32", "bad", (RPI, "return reinterpret_cast<ptr_t>(offset + reinterpret_cast<std::uintptr_t>(basePtr));", "return reinterpret_cast<ptr_t>(static_cast<uint32_t>(offset) + reinterpret_cast<std::uintptr_t>(basePtr));"))
m("P19", "w-open32", "bad", (SHU, ".memorySizeInBytes(shmSize)", ".memorySizeInBytes(static_cast<uint32_t>(shmSize))"))
m("P19", "w-reg32", "bad", (SHU, 'shm.getBaseAddress(), shm.get_size().expect("Failed to acquire SHM size."));', 'shm.getBaseAddress(), static_cast<uint32_t>(shm.get_size().expect("Failed to acquire SHM size.")));'))
m("P19", "w-seg32", "bad", (SHU, "                                      segment.m_size,\n", "                                      static_cast<uint32_t>(segment.m_size),\n"))
m("P22", "w-real32", "bad", (PSO, "    const auto realSize = *realSizeResult;", "    const auto realSize = static_cast<uint32_t>(*realSizeResult);"))
m("P22", "w-size32", "bad", (PSO, ".size(m_memorySizeInBytes)", ".size(static_cast<uint32_t>(m_memorySizeInBytes))"))
SGI = "iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl"
m("P26", "w-sg32", "bad", (SGI, "    uint64_t memorySize{0u};", "    uint32_t memorySize{0u};"), (SGI, "memorySize += MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig);", "memorySize += static_cast<uint32_t>(MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig));"))
m("P26", "w-sglast", "bad", (SGI, "memorySize += MemoryManager::requiredManagementMemorySize", "memorySize = MemoryManager::requiredManagementMemorySize"))
m("P26", "w-sgmax", "bad", (SGI, "memorySize += MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig);", "const auto need = MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig);\n        memorySize = need > memorySize ? need : memorySize;"))
m("P26", "w-sgok", "ok", (SGI, "memorySize += MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig);", "const auto need = MemoryManager::requiredManagementMemorySize(segment.m_mempoolConfig);\n        if (need != 0U)\n        {\n            memorySize = need + memorySize;\n        }"))
PSP = "iceoryx_posh/source/roudi/memory/posix_shm_memory_provider.cpp"
m("P26", "w-create32", "bad", (PSP, ".memorySizeInBytes(size)", ".memorySizeInBytes(static_cast<uint32_t>(size))"))
PMM = "iceoryx_hoofs/posix/ipc/source/posix_memory_map.cpp"
m("P22", "w-unmap32", "bad", (PMM, "munmap)(m_baseAddress, static_cast<size_t>(m_length))", "munmap)(m_baseAddress, static_cast<uint32_t>(m_length))"))
MSI = "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl"
m("P02", "s-full", "bad", (MSI, ".memorySizeInBytes(MemoryManager::requiredChunkMemorySize(mempoolConfig))", ".memorySizeInBytes(MemoryManager::requiredManagementMemorySize(mempoolConfig))"))
m("P02", "s-minus", "bad", (MSI, ".memorySizeInBytes(MemoryManager::requiredChunkMemorySize(mempoolConfig))", ".memorySizeInBytes(MemoryManager::requiredChunkMemorySize(mempoolConfig) - 8U)"))
m("P02", "s-32", "bad", (MSI, ".memorySizeInBytes(MemoryManager::requiredChunkMemorySize(mempoolConfig))", ".memorySizeInBytes(static_cast<uint32_t>(MemoryManager::requiredChunkMemorySize(mempoolConfig)))"))
m("P02", "s-segsize", "bad", (MSI, 'this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.");', 'this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.") / 2U;'))
m("P02", "s-seg32", "bad", (MSI, 'this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.");', 'this->m_segmentSize = static_cast<uint32_t>(sharedMemoryObject.get_size().expect("Failed to get SHM size."));'))
m("P02", "s-reg", "bad", (MSI, 'sharedMemoryObject.get_size().expect("Failed to get SHM size"));', 'sharedMemoryObject.get_size().expect("Failed to get SHM size") - MemPool::CHUNK_MEMORY_ALIGNMENT);'))
m("P02", "s-ok-local", "ok", (MSI, 'this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.");', 'const auto size = sharedMemoryObject.get_size().expect("Failed to get SHM size.");\n                this->m_segmentSize = size;'))
m("P02", "s-ok-order", "ok", (MSI, '                auto maybeSegmentId = iox', '                this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.");\n                auto maybeSegmentId = iox'), (MSI, '                this->m_segmentId = static_cast<uint64_t>(maybeSegmentId.value());\n                this->m_segmentSize = sharedMemoryObject.get_size().expect("Failed to get SHM size.");\n', '                this->m_segmentId = static_cast<uint64_t>(maybeSegmentId.value());\n'), (MSI, '                    sharedMemoryObject.get_size().expect("Failed to get SHM size"));', '                    m_segmentSize);'))
m("P02", "c-genfirst", "bad", (MMG, "    for (auto entry : mePooConfig.m_mempoolConfig)\n", "    if (mePooConfig.m_mempoolConfig.size() > 2U)\n    {\n        generateChunkManagementPool(managementAllocator);\n        return;\n    }\n    for (auto entry : mePooConfig.m_mempoolConfig)\n"))
m("P02", "c-alloc", "bad", (MMG, "addMemPool(managementAllocator, chunkMemoryAllocator, entry", "addMemPool(managementAllocator, managementAllocator, entry"))
m("P02", "c-skip", "bad", (MMG, "    for (auto entry : mePooConfig.m_mempoolConfig)\n    {\n", "    for (auto entry : mePooConfig.m_mempoolConfig)\n    {\n        if (entry.m_chunkCount > 100000U)\n        {\n            continue;\n        }\n"))
m("P02", "c-ref", "ok", (MMG, "    for (auto entry : mePooConfig.m_mempoolConfig)\n", "    for (const auto& entry : mePooConfig.m_mempoolConfig)\n"))
m("P02", "c-index", "ok", (MMG, "    for (auto entry : mePooConfig.m_mempoolConfig)\n    {\n", "    for (uint64_t i = 0U; i < mePooConfig.m_mempoolConfig.size(); ++i)\n    {\n        const auto& entry = mePooConfig.m_mempoolConfig[i];\n"))
BA = "iceoryx_hoofs/memory/source/bump_allocator.cpp"
FIT = "if (alignedPosition <= m_length && size <= m_length - alignedPosition)"
m("P02", "b-wrap", "bad", (BA, FIT, "if (alignedPosition + size <= m_length)"))
m("P02", "b-noinside", "bad", (BA, FIT, "if (size <= m_length - alignedPosition)"))
m("P02", "b-unaligned", "bad", (BA, "m_currentPosition = alignedPosition + size;", "m_currentPosition += size;"))
m("P02", "b-pos32", "bad", (BA, "m_currentPosition = alignedPosition + size;", "m_currentPosition = static_cast<uint32_t>(alignedPosition + size);"))
m("P02", "b-posfirst", "bad", (BA, "const uint64_t currentAddress{m_startAddress + m_currentPosition};", "const uint64_t currentAddress{align(m_startAddress, alignment) + m_currentPosition};"))
m("P02", "b-advance-fail", "bad", (BA, "        IOX_LOG(Warn,\n                \"Trying", "        m_currentPosition = alignedPosition;\n        IOX_LOG(Warn,\n                \"Trying"))
m("P02", "b-ok-next", "ok", (BA, FIT, "const uint64_t nextPosition{alignedPosition + size};\n    const bool wraps = nextPosition < size;\n    if (!wraps && nextPosition <= m_length)"))
m("P02", "b-ok-nested", "ok", (BA, FIT, "const bool inside = m_length >= alignedPosition;\n    const uint64_t left = inside ? m_length - alignedPosition : 0U;\n    if (inside && left >= size)"))
