"""planted bugs: edits + demonstration"""
S = []
RUN = 'g++ -std=c++17 -O1 -w $INC "$D/demo.cpp" -o "$W/demo" $LIBS || exit 2\n"$W/demo" >"$W/log" 2>&1; rc=$?\ntail -5 "$W/log"\nexit $rc\n'
TSAN = 'g++ -std=c++17 -O1 -w -fsanitize=thread $INC "$D/demo.cpp" -o "$W/demo" $LIBS || exit 2\nTSAN_OPTIONS="halt_on_error=1 exitcode=1" setarch -R "$W/demo" >"$W/log" 2>&1; rc=$?\ntail -25 "$W/log"\nexit $rc\n'


def seed(id, prop, needs, breaks, edits, demo, run=RUN, files=None):
    fs = dict(files or {})
    fs["demo.cpp"] = demo
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, files=fs, run=run))


# an iox::concurrent::Atomic that calls a hook before each access, to put another thread's steps at an exact point
HOOK_ATOMIC = r'''#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <type_traits>
inline std::function<void(const char*)> g_hook;
inline void hook(const char* op) { if (g_hook) { auto h = g_hook; g_hook = nullptr; h(op); if (!g_hook) g_hook = h; } }
namespace iox { namespace concurrent {
using AtomicFlag = std::atomic_flag;
template <typename T> class Atomic {
 public:
  constexpr Atomic() noexcept : v{T()} {}
  explicit constexpr Atomic(T x) noexcept : v{x} {}
  Atomic(const Atomic&) = delete; Atomic& operator=(const Atomic&) = delete;
  T operator=(T x) noexcept { hook("store"); v = x; return x; }
  explicit operator T() const noexcept { hook("load"); return v.load(); }
  void store(T x, std::memory_order = std::memory_order_seq_cst) noexcept { hook("store"); v.store(x); }
  void store(T x, std::memory_order = std::memory_order_seq_cst) volatile noexcept { hook("store"); v.store(x); }
  T load(std::memory_order = std::memory_order_seq_cst) const noexcept { hook("load"); return v.load(); }
  T exchange(T x, std::memory_order = std::memory_order_seq_cst) noexcept { hook("rmw"); return v.exchange(x); }
  bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { hook("cas"); return v.compare_exchange_strong(e, d); }
  bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept { hook("cas"); return v.compare_exchange_strong(e, d); }
  T fetch_add(T x, std::memory_order = std::memory_order_seq_cst) noexcept { hook("rmw"); return v.fetch_add(x); }
  T fetch_sub(T x, std::memory_order = std::memory_order_seq_cst) noexcept { hook("rmw"); return v.fetch_sub(x); }
  T operator++() noexcept { hook("rmw"); return ++v; }
  T operator--() noexcept { hook("rmw"); return --v; }
  T operator++(int) noexcept { hook("rmw"); return v++; }
  T operator--(int) noexcept { hook("rmw"); return v--; }
  T operator+=(T x) noexcept { hook("rmw"); return v += x; }
  T operator-=(T x) noexcept { hook("rmw"); return v -= x; }
 private:
  std::atomic<T> v;
};
} }
'''
HOOK = {"iceoryx_platform/atomic.hpp": HOOK_ATOMIC}
BD = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
FI, SO, IQ, LQ, RQ = BD + "spsc_fifo.inl", BD + "spsc_sofi.inl", BD + "mpmc_lockfree_queue/mpmc_index_queue.inl", BD + "mpmc_lockfree_queue/mpmc_lockfree_queue.inl", BD + "mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl"
LF = "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"
SC = "iceoryx_posh/source/mepoo/shared_chunk.cpp"
MPC = "iceoryx_posh/source/mepoo/mem_pool.cpp"

seed("p01_move_same", "P01", "a handle is move-assigned from another handle of the same chunk",
     "two owners become one but the count is not lowered: the chunk is never given back",
     [(SC, "    if (this != &rhs)\n    {\n        decrementReferenceCounter();\n        m_chunkManagement = std::move(rhs.m_chunkManagement);\n        rhs.m_chunkManagement = nullptr;\n    }",
       "    if (m_chunkManagement != rhs.m_chunkManagement)\n    {\n        decrementReferenceCounter();\n        m_chunkManagement = std::move(rhs.m_chunkManagement);\n    }\n    if (this != &rhs)\n    {\n        rhs.m_chunkManagement = nullptr;\n    }")],
     r'''
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iox/bump_allocator.hpp"
#include <cstdio>
using namespace iox::mepoo;
int main() {
    static char mem[1 << 20];
    iox::BumpAllocator a{mem, sizeof(mem)};
    MePooConfig c; c.addMemPool({128, 4});
    static MemoryManager m; m.configureMemoryManager(c, a, a);
    auto s = ChunkSettings::create(64, 8).value();
    {
        auto r = m.getChunk(s);
        if (r.has_error()) return 3;
        SharedChunk x = r.value();
        SharedChunk y = x;
        y = std::move(x);
    }
    unsigned used = m.getMemPoolInfo(0).m_usedChunks;
    std::printf("used %u\n", used);
    return used == 0 ? 0 : 1;
}
''')
seed("p05_sofi_stale", "P05", "the producer overflows the queue between the consumer's copy of the oldest element and its compare-and-swap",
     "pop returns the element that push already returned as evicted, and the next one is lost",
     [(SO, "    uint64_t currentReadPosition = m_readPosition.load(std::memory_order_relaxed);\n\n    do\n    {",
       "    uint64_t currentReadPosition = m_readPosition.load(std::memory_order_relaxed);\n    bool alreadyCopied{false};\n\n    do\n    {"),
      (SO, "            std::memcpy(&valueOut, &m_data[currentReadPosition % m_size], sizeof(ValueType));\n            nextReadPosition",
       "            if (!alreadyCopied)\n            {\n                std::memcpy(&valueOut, &m_data[currentReadPosition % m_size], sizeof(ValueType));\n                alreadyCopied = true;\n            }\n            nextReadPosition")],
     r'''
#include "iox/detail/spsc_sofi.hpp"
#include <cstdio>
#include <cstring>
#include <vector>
int main() {
    iox::concurrent::SpscSofi<uint64_t, 4> q;
    uint64_t n = 1, out = 0;
    std::vector<uint64_t> seen;
    while (q.push(n, out) && n < 4) ++n;   // fill up
    ++n;
    bool once = true;
    g_hook = [&](const char* op) {
        if (once && !std::strcmp(op, "cas")) {
            once = false;
            for (int i = 0; i < 2; ++i) { uint64_t ev = 0; if (!q.push(n, ev)) seen.push_back(ev); ++n; }
        }
    };
    uint64_t v = 0;
    if (q.pop(v)) seen.push_back(v);
    g_hook = nullptr;
    while (q.pop(v)) seen.push_back(v);
    for (size_t i = 0; i < seen.size(); ++i) std::printf("%lu ", (unsigned long) seen[i]);
    std::printf("of %lu\n", (unsigned long) n - 1);
    if (once) return 3;
    if (seen.size() != n - 1) return 1;
    for (size_t i = 0; i < seen.size(); ++i) if (seen[i] != i + 1) return 1;
    return 0;
}
''', files=HOOK)
seed("p05_fifo_relaxed", "P05", "a weakly ordered CPU or compiler reordering: the consumer sees the new write position before the element",
     "an element is read before it was published",
     [(FI, "    m_writePos.store(currentWritePos + 1, std::memory_order_release);", "    m_writePos.store(currentWritePos + 1, std::memory_order_relaxed);")],
     r'''
#include "iox/detail/spsc_fifo.hpp"
#include <thread>
int main() {
    static iox::concurrent::SpscFifo<uint64_t, 8> q;
    std::thread p([] { for (uint64_t i = 0; i < 20000;) if (q.push(i)) ++i; });
    uint64_t sum = 0, n = 0;
    while (n < 20000) { auto v = q.pop(); if (v.has_value()) { sum += *v; ++n; } }
    p.join();
    return sum == 20000ull * 19999 / 2 ? 0 : 1;
}
''', run=TSAN)
seed("p06_no_dtor", "P06", "an element type that is not trivially destructible, taken out by pop or evicted by push",
     "the element left in the slot is never destroyed: the slot's life cycle free/filled/emptied is broken and resources leak",
     [(LQ, "    element.~ElementType();\n", "")],
     r'''
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include <cstdio>
static long alive = 0;
struct E { long v{0}; E() { ++alive; } E(long x) : v(x) { ++alive; } E(const E& o) : v(o.v) { ++alive; } E(E&& o) noexcept : v(o.v) { ++alive; }
           E& operator=(const E&) = default; E& operator=(E&&) noexcept = default; ~E() { --alive; } };
int main() {
    {
        iox::concurrent::MpmcLockFreeQueue<E, 5> q;
        for (long i = 0; i < 12; ++i) { auto ev = q.push(E{i}); }
        while (q.pop().has_value()) {}
        std::printf("alive after draining: %ld\n", alive);
        if (alive != 0) return 1;
    }
    return alive == 0 ? 0 : 1;
}
''')
seed("p04_aba", "P04", "a give of the same slot by another thread between reading the head and swapping it, after two takes",
     "the compare-and-swap succeeds although the list changed: one slot gets two owners",
     [(LF, "        newHead.indexToNextFreeIndex = index;\n        newHead.abaCounter = oldHead.abaCounter + 1;",
       "        newHead.indexToNextFreeIndex = index;\n        newHead.abaCounter = oldHead.abaCounter - 1;")],
     r'''
#include "iox/detail/mpmc_loffli.hpp"
#include <cstdio>
#include <cstring>
#include <set>
int main() {
    using L = iox::concurrent::MpmcLoFFLi;
    static L::Index_t mem[16];
    L l; l.init(iox::not_null<L::Index_t*>(mem), 4);
    L::Index_t z; if (!l.pop(z)) return 3;              // z == 0, list 1 2 3
    bool once = true;
    std::multiset<L::Index_t> held;
    held.insert(z);
    g_hook = [&](const char* op) {
        if (!once || std::strcmp(op, "cas")) return;
        once = false;
        // other thread: take a, take b, give z, give a  (head is a again, b is held)
        L::Index_t a, b;
        if (!l.pop(a) || !l.pop(b)) std::_Exit(3);
        held.insert(b);
        if (!l.push(z)) std::_Exit(3); held.erase(held.find(z));
        if (!l.push(a)) std::_Exit(3);
    };
    L::Index_t x; if (l.pop(x)) held.insert(x);
    g_hook = nullptr;
    L::Index_t y; while (l.pop(y)) { held.insert(y); if (held.size() > 16) break; }
    for (auto i : held) std::printf("%u ", i);
    std::printf("\n");
    if (once) return 3;
    if (held.size() != 4) return 1;
    for (auto i : held) if (held.count(i) != 1) return 1;
    return 0;
}
''', files=HOOK, run='g++ -std=c++17 -O1 -w $INC "$D/demo.cpp" $R/iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp -o "$W/demo" $LIBS || exit 2\n"$W/demo" >"$W/log" 2>&1; rc=$?\ntail -5 "$W/log"\nexit $rc\n')
seed("p02_interior", "P02", "a give-back of an address inside a chunk (aligned, but not a chunk boundary)",
     "an address that the pool never handed out is accepted and frees somebody else's chunk",
     [(MPC, "    if (offset % chunkSize != 0)", "    if (offset % CHUNK_MEMORY_ALIGNMENT != 0)")],
     r'''
#include "iceoryx_posh/internal/mepoo/mem_pool.hpp"
#include "iox/bump_allocator.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <memory>
int main() {
    static char mem[1 << 16];
    iox::BumpAllocator a{mem, sizeof(mem)};
    iox::mepoo::MemPool p(128U, 4U, a, a);
    auto* c = static_cast<char*>(p.getChunk());
    pid_t pid = fork();
    if (pid == 0) { p.freeChunk(c + 8); _exit(0); }     // must not survive
    int st = 0; waitpid(pid, &st, 0);
    std::printf("status %d\n", st);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 1 : 0;
}
''')
ENV_RUN = 'INC="$INC -I$R/iceoryx_posh/roudi_env/include"; LIBS="$B/posh/roudi_env/libiceoryx_posh_roudi_env.a $B/posh/libiceoryx_posh_config.a $LIBS"\n' + RUN
UCL = "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"
CDI = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl"
CQP = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_queue_pusher.inl"
PM = "iceoryx_posh/source/roudi/port_manager.cpp"
SHM = "iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp"
REPO = "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl"
SUBM = "iceoryx_posh/source/popo/ports/subscriber_port_multi_producer.cpp"

seed("p07_cleanup_links", "P07", "an application dies inside insert, after the entry is stored but before the list head is visible (or inside remove, while the entry is unlinked)",
     "RouDi's cleanup follows the links of the list instead of looking at every slot: the chunk of an unlinked slot is never freed",
     [(UCL, "    for (auto& data : m_listData)\n    {\n        if (!data.isLogicalNullptr())\n        {\n            // release ownership by creating a SharedChunk\n            data.releaseToSharedChunk();\n        }\n    }\n\n    init();",
       "    // only the slots in the used list can hold a chunk\n    for (auto current = m_usedListHead; current != INVALID_INDEX; current = m_listIndices[current])\n    {\n        auto& data = m_listData[current];\n        if (!data.isLogicalNullptr())\n        {\n            // release ownership by creating a SharedChunk\n            data.releaseToSharedChunk();\n        }\n    }\n    m_usedListHead = INVALID_INDEX;\n\n    init();"),
      (UCL, "    // clear data\n    for (auto& data : m_listData)\n    {\n        data.releaseToSharedChunk();\n    }\n\n    m_synchronizer", "    // clear data\n    for (auto& data : m_listData)\n    {\n        data = DATA_ELEMENT_LOGICAL_NULLPTR;\n    }\n\n    m_synchronizer")],
     r'''
#include <cstdio>
#include <sstream>
#include <thread>
#include <mutex>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <chrono>
#include <iostream>
#define private public
#include "iceoryx_posh/internal/popo/used_chunk_list.hpp"
#undef private
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iox/bump_allocator.hpp"
using namespace iox::mepoo;
int main() {
    static char mem[1 << 20];
    iox::BumpAllocator a{mem, sizeof(mem)};
    MePooConfig c; c.addMemPool({128, 4});
    static MemoryManager m; m.configureMemoryManager(c, a, a);
    auto s = ChunkSettings::create(64, 8).value();
    static iox::popo::UsedChunkList<4> l;
    {
        auto r = m.getChunk(s); auto t = m.getChunk(s);
        l.insert(r.value()); l.insert(t.value());
    }
    // the application dies in the middle of remove: the first entry is unlinked but still holds its chunk
    l.m_usedListHead = l.m_listIndices[l.m_usedListHead];
    l.cleanup();
    unsigned used = m.getMemPoolInfo(0).m_usedChunks;
    std::printf("used %u\n", used);
    return used == 0 ? 0 : 1;
}
''')

seed("p14_last_known", "P14", "a client that was connected before this one disconnects and a new one connects while a response waits for room, so that the queue of this client moves to a lower index",
     "the search for the response queue starts at the last known index: the queue is not found and the response is dropped although the client is connected",
     [(CDI, "    uint32_t index{0};\n    for (auto& queue : queues)\n    {\n        if (queue->m_uniqueId == uniqueQueueId)\n        {\n            return index;\n        }\n        ++index;\n    }\n    return nullopt;",
       "    // queues are appended, continue after the last known position\n    for (uint32_t index = (lastKnownQueueIndex < queues.size()) ? lastKnownQueueIndex : 0U; index < queues.size();\n         ++index)\n    {\n        if (queues[index]->m_uniqueId == uniqueQueueId)\n        {\n            return index;\n        }\n    }\n    return nullopt;")],
     r'''
#include "iceoryx_posh/roudi_env/roudi_env.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iox/optional.hpp"
#include <chrono>
#include <cstdio>
#include <thread>
using namespace iox::popo;
int main() {
    iox::roudi_env::RouDiEnv env;
    iox::runtime::PoshRuntime::initRuntime("app");
    iox::capro::ServiceDescription sd{"a", "b", "c"};
    ServerOptions so;
    so.clientTooSlowPolicy = ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER;
    ClientOptions co;
    co.responseQueueCapacity = 1;
    co.responseQueueFullPolicy = QueueFullPolicy::BLOCK_PRODUCER;
    UntypedServer server{sd, so};
    iox::optional<UntypedClient> first, second, third;
    first.emplace(sd, co);
    env.triggerDiscoveryLoopAndWaitToFinish();
    second.emplace(sd, co);
    env.triggerDiscoveryLoopAndWaitToFinish();
    const void* rq[2];
    for (int i = 0; i < 2; ++i) {
        auto l = second->loan(8, 8);
        if (l.has_error() || second->send(l.value()).has_error()) return 3;
        auto t = server.take();
        if (t.has_error()) return 3;
        rq[i] = t.value();
    }
    bool sent[2] = {false, false};
    std::thread th([&] {
        for (int i = 0; i < 2; ++i) {
            auto rs = server.loan(RequestHeader::fromPayload(rq[i]), 8, 8);
            if (!rs.has_error()) sent[i] = !server.send(rs.value()).has_error();
        }
    });
    std::this_thread::sleep_for(std::chrono::milliseconds(300)); // the second response waits for room
    first.reset();
    env.triggerDiscoveryLoopAndWaitToFinish();
    third.emplace(sd, co);
    env.triggerDiscoveryLoopAndWaitToFinish();
    std::this_thread::sleep_for(std::chrono::milliseconds(100));
    int got = 0;
    for (int i = 0; i < 100; ++i) {
        auto r = second->take();
        if (!r.has_error()) { ++got; second->releaseResponse(r.value()); }
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    th.join();
    std::printf("sent %d %d received %d\n", sent[0], sent[1], got);
    return got == 2 ? 0 : 1;
}
''', run=ENV_RUN)

seed("p22_shm_keep", "P22", "the size of a new shared memory cannot be set (file size limit, no space)",
     "the name of the half created shared memory stays in the system although the creation is reported as failed",
     [(SHM, "            IOX_POSIX_CALL(iox_shm_unlink)\n            (nameWithLeadingSlash.c_str())\n                .failureReturnValue(PosixSharedMemory::INVALID_HANDLE)\n                .evaluate()\n                .or_else([&](auto&) {\n                    IOX_LOG(Error,\n                            \"Unable to remove previously created SharedMemory \\\"\"\n                                << m_name << \"\\\". This may be a SharedMemory leak.\");\n                });",
       "            // with OpenOrCreate the memory might be in use by others already\n            if (m_openMode != OpenMode::OpenOrCreate)\n            {\n                IOX_POSIX_CALL(iox_shm_unlink)\n                (nameWithLeadingSlash.c_str())\n                    .failureReturnValue(PosixSharedMemory::INVALID_HANDLE)\n                    .evaluate()\n                    .or_else([&](auto&) {\n                        IOX_LOG(Error,\n                                \"Unable to remove previously created SharedMemory \\\"\"\n                                    << m_name << \"\\\". This may be a SharedMemory leak.\");\n                    });\n            }")],
     r'''
#include "iox/detail/posix_shared_memory.hpp"
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
int main() {
    std::string n = "iox_demo_" + std::to_string(::getpid());
    std::signal(SIGXFSZ, SIG_IGN);
    rlimit l{4096, 4096};
    if (::setrlimit(RLIMIT_FSIZE, &l)) return 3;
    using namespace iox;
    auto r = detail::PosixSharedMemoryBuilder()
                 .name(detail::PosixSharedMemory::Name_t(TruncateToCapacity, n.c_str()))
                 .accessMode(AccessMode::ReadWrite).openMode(OpenMode::OpenOrCreate)
                 .filePermissions(perms::owner_all).size(1 << 20).create();
    if (!r.has_error()) return 3;
    bool left = ::shm_unlink(("/" + n).c_str()) == 0;
    std::printf("name left behind: %d\n", left);
    return left ? 1 : 0;
}
''')

seed("p23_shrink", "P23", "a segment that is not the last one is unregistered while segments with larger ids are in use",
     "the range of ids that is searched shrinks with every unregistration: pointers into the last segment are no longer recognised and get a process local representation",
     [(REPO, "            m_info[id].basePtr = nullptr;\n\n            /// @note do not search", "            m_info[id].basePtr = nullptr;\n            --m_maxRegistered;\n\n            /// @note do not search")],
     r'''
#include "iox/detail/pointer_repository.hpp"
#include "iox/relative_pointer.hpp"
#include <cstdio>
int main() {
    static char a[64], b[64], c[64];
    using R = iox::RelativePointer<char>; using I = iox::segment_id_t;
    R::registerPtrWithId(I{1}, a, 64); R::registerPtrWithId(I{2}, b, 64); R::registerPtrWithId(I{3}, c, 64);
    R::unregisterPtr(I{1});
    R p{c + 8};
    unsigned long id = p.getId(), offset = p.getOffset();
    std::printf("id %lu offset %lu\n", id, offset);
    return id == 3 && offset == 8 ? 0 : 1;
}
''')

seed("p24_pool_wait", "P24", "a publisher loans while its memory pool is exhausted",
     "the allocation of a chunk waits for another process instead of failing at once",
     [(MPC, "    uint32_t index{0U};\n    if (!m_freeIndices.pop(index))\n    {\n        IOX_LOG",
       "    uint32_t index{0U};\n    bool hasIndex = m_freeIndices.pop(index);\n    constexpr uint32_t NUMBER_OF_RETRIES{3U};\n    for (uint32_t i = 0U; !hasIndex && i < NUMBER_OF_RETRIES; ++i)\n    {\n        // give the subscribers a chance to release a chunk\n        std::this_thread::sleep_for(std::chrono::microseconds(100));\n        hasIndex = m_freeIndices.pop(index);\n    }\n    if (!hasIndex)\n    {\n        IOX_LOG"),
      (MPC, "#include <algorithm>\n", "#include <algorithm>\n#include <chrono>\n#include <thread>\n")],
     r'''
#include "iceoryx_posh/internal/mepoo/memory_manager.hpp"
#include "iceoryx_posh/mepoo/mepoo_config.hpp"
#include "iceoryx_posh/mepoo/chunk_settings.hpp"
#include "iox/bump_allocator.hpp"
#include <cstdio>
#include <time.h>
using namespace iox::mepoo;
static int waits = 0;
extern "C" int nanosleep(const timespec*, timespec*) { ++waits; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { ++waits; return 0; }
extern "C" int sched_yield() { ++waits; return 0; }
int main() {
    static char mem[1 << 20];
    iox::BumpAllocator a{mem, sizeof(mem)};
    MePooConfig c; c.addMemPool({128, 1});
    static MemoryManager m; m.configureMemoryManager(c, a, a);
    auto s = ChunkSettings::create(64, 8).value();
    auto r = m.getChunk(s);
    waits = 0;
    auto t = m.getChunk(s);
    if (!t.has_error()) return 3;
    std::printf("waits %d\n", waits);
    return waits ? 1 : 0;
}
''')

seed("p11_edge", "P11", "data is queued before the subscriber is attached, or the consumer takes fewer samples than were delivered",
     "the wait set is only notified when the queue was empty: later samples of a queue that never becomes empty are never announced",
     [(CQP, "        if (getMembers()->m_conditionVariableDataPtr)\n", "        // a queue with more elements has been announced already\n        if (getMembers()->m_conditionVariableDataPtr && getMembers()->m_queue.size() <= 1U)\n")],
     r'''
#include "iceoryx_posh/roudi_env/roudi_env.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include <cstdio>
int main() {
    iox::roudi_env::RouDiEnv env;
    iox::runtime::PoshRuntime::initRuntime("app");
    iox::popo::Publisher<int> p({"a", "b", "c"});
    iox::popo::Subscriber<int> s({"a", "b", "c"});
    env.triggerDiscoveryLoopAndWaitToFinish();
    p.publishCopyOf(1); p.publishCopyOf(2);
    iox::popo::WaitSet<> w;
    if (w.attachEvent(s, iox::popo::SubscriberEvent::DATA_RECEIVED).has_error()) return 3;
    p.publishCopyOf(3);
    auto n = w.timedWait(iox::units::Duration::fromMilliseconds(500)).size();
    std::printf("notifications %u\n", (unsigned) n);
    return n == 1 ? 0 : 1;
}
''', run=ENV_RUN)

seed("p13_multi_history", "P13", "a publisher is offered after the subscriber has subscribed, in a many-to-many topology",
     "the subscription sent in answer to an offer does not ask for the history the subscriber was configured with",
     [(SUBM, "        caproMessage.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n        caproMessage.m_historyCapacity = getMembers()->m_options.historyRequest;\n\n        return make_optional<capro::CaproMessage>(caproMessage);\n    }\n    else if ((capro::CaproMessageType::OFFER == caProMessage.m_type)\n             && (SubscribeState::NOT_SUBSCRIBED",
       "        caproMessage.m_chunkQueueData = static_cast<void*>(&getMembers()->m_chunkReceiverData);\n\n        return make_optional<capro::CaproMessage>(caproMessage);\n    }\n    else if ((capro::CaproMessageType::OFFER == caProMessage.m_type)\n             && (SubscribeState::NOT_SUBSCRIBED")],
     r'''
#include "iceoryx_posh/roudi_env/roudi_env.hpp"
#include "iceoryx_posh/runtime/posh_runtime.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include <cstdio>
int main() {
    iox::roudi_env::RouDiEnv env;
    iox::runtime::PoshRuntime::initRuntime("app");
    iox::popo::SubscriberOptions so; so.historyRequest = 2; so.queueCapacity = 8;
    iox::popo::Subscriber<int> s({"a", "b", "c"}, so);
    env.triggerDiscoveryLoopAndWaitToFinish();
    iox::popo::PublisherOptions po; po.historyCapacity = 4; po.offerOnCreate = false;
    iox::popo::Publisher<int> p({"a", "b", "c"}, po);
    p.publishCopyOf(1); p.publishCopyOf(2);
    p.offer();
    env.triggerDiscoveryLoopAndWaitToFinish();
    int n = 0;
    while (!s.take().has_error()) ++n;
    std::printf("history received %d\n", n);
    return n == 2 ? 0 : 1;
}
''', run=ENV_RUN)

MPV = "iceoryx_posh/source/roudi/memory/memory_provider.cpp"
seed("p26_sum", "P26", "a small block with a large alignment follows a block that does not end at that alignment",
     "the size of the management memory is rounded up after adding a block instead of before, so that the last block does not fit",
     [(MPV, "        auto size = align(memoryBlock->size(), alignment);\n        totalSize = align(totalSize, alignment) + size;", "        totalSize = align(totalSize + memoryBlock->size(), alignment);")],
     r'''
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include <cstdio>
#include <cstdlib>
using namespace iox;
using namespace iox::roudi;
struct Block : MemoryBlock {
    uint64_t s, a;
    Block(uint64_t s, uint64_t a) : s(s), a(a) {}
    uint64_t size() const noexcept override { return s; }
    uint64_t alignment() const noexcept override { return a; }
    void destroy() noexcept override {}
};
struct Provider : MemoryProvider {
    ~Provider() noexcept override { if (isAvailable()) (void)destroy(); }
    void* p{nullptr};
    expected<void*, MemoryProviderError> createMemory(const uint64_t size, const uint64_t al) noexcept override {
        p = aligned_alloc(al < 16 ? 16 : al, (size + 63) / 16 * 16 + 64);
        return ok(p);
    }
    expected<void, MemoryProviderError> destroyMemory() noexcept override { free(p); return ok(); }
};
int main() {
    const uint64_t sizes[][4] = {{8, 8, 8, 8}, {16, 8, 24, 4}, {9, 1, 8, 8}, {3, 1, 1, 16}, {5, 1, 1, 8}, {64, 32, 7, 16}};
    int bad = 0;
    for (auto& c : sizes) {
        Block a(c[0], c[1]), b(c[2], c[3]);
        Provider p;
        (void)p.addMemoryBlock(&a);
        (void)p.addMemoryBlock(&b);
        auto r = p.create();
        if (r.has_error()) { ++bad; std::printf("(%lu,%lu) (%lu,%lu): no room\n", c[0], c[1], c[2], c[3]); continue; }
        auto end = static_cast<char*>(b.memory().value()) + b.s;
        if (end > static_cast<char*>(p.baseAddress().value()) + p.size()) { ++bad; std::printf("block exceeds the memory\n"); }
    }
    return bad ? 1 : 0;
}
''')

TPV = "iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp"
RUNC = 'LIBS="$B/posh/libiceoryx_posh_config.a $LIBS"\n' + RUN
seed("p28_carry", "P28", "a configuration file with more than one segment",
     "the pools of a segment are carried over to the segments after it in the file",
     [(TPV, "        iox::mepoo::MePooConfig mempoolConfig;\n", ""), (TPV, "    iox::IceoryxConfig parsedConfig;\n", "    iox::IceoryxConfig parsedConfig;\n    iox::mepoo::MePooConfig mempoolConfig;\n")],
     r'''
#include "iceoryx_posh/roudi/roudi_config_toml_file_provider.hpp"
#include <cstdio>
#include <sstream>
int main() {
    std::stringstream s;
    s << "[general]\nversion = 1\n"
      << "[[segment]]\n[[segment.mempool]]\nsize = 128\ncount = 5\n[[segment.mempool]]\nsize = 256\ncount = 6\n"
      << "[[segment]]\n[[segment.mempool]]\nsize = 1024\ncount = 7\n";
    auto r = iox::config::TomlRouDiConfigFileProvider::parse(s);
    if (r.has_error()) { std::printf("refused\n"); return 1; }
    auto& g = r.value().m_sharedMemorySegments;
    if (g.size() != 2) { std::printf("%lu segments\n", g.size()); return 1; }
    auto& a = g[0].m_mempoolConfig.m_mempoolConfig;
    auto& b = g[1].m_mempoolConfig.m_mempoolConfig;
    if (a.size() != 2 || b.size() != 1) { std::printf("%lu and %lu pools\n", a.size(), b.size()); return 1; }
    if (b[0].m_size != 1024 || b[0].m_chunkCount != 7) { std::printf("wrong pool\n"); return 1; }
    return 0;
}
''', run=RUNC)
