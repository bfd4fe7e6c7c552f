// instantiates the generic memory block and shows the positions of the virtual functions; never run
#include "iceoryx_posh/roudi/memory/generic_memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_block.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include "iceoryx_posh/roudi/memory/iceoryx_roudi_memory_manager.hpp"
namespace vd
{
struct alignas(32) T
{
    T() noexcept;
    ~T() noexcept;
    char c[96];
};
struct Block : iox::roudi::MemoryBlock
{
    static uint64_t slot_size(Block& b) { return b.size(); }
    static uint64_t slot_alignment(Block& b) { return b.alignment(); }
    static void slot_destroy(Block& b) { b.destroy(); }
    static void slot_onMemoryAvailable(Block& b, iox::not_null<void*> m) { b.onMemoryAvailable(m); }
};
struct Provider : iox::roudi::MemoryProvider
{
    static void slot_createMemory(Provider& p) { (void)p.createMemory(1, 1); }
    static void slot_destroyMemory(Provider& p) { (void)p.destroyMemory(); }
};
uint64_t (*s1)(Block&) = &Block::slot_size;
uint64_t (*s2)(Block&) = &Block::slot_alignment;
void (*s3)(Block&) = &Block::slot_destroy;
void (*s4)(Block&, iox::not_null<void*>) = &Block::slot_onMemoryAvailable;
void (*s5)(Provider&) = &Provider::slot_createMemory;
void (*s6)(Provider&) = &Provider::slot_destroyMemory;
iox::optional<T*> g_emplace(iox::roudi::GenericMemoryBlock<T>& b) { return b.emplace(); }
void drop(iox::roudi::IceOryxRouDiMemoryManager& m) { m.iox::roudi::IceOryxRouDiMemoryManager::~IceOryxRouDiMemoryManager(); }
uint64_t sizeof_port() { return sizeof(iox::roudi::PortPoolData); }
uint64_t alignof_port() { return alignof(iox::roudi::PortPoolData); }
uint64_t sizeof_coll() { return sizeof(iox::mepoo::MemoryManager); }
uint64_t alignof_coll() { return alignof(iox::mepoo::MemoryManager); }
uint64_t sizeof_seg() { return sizeof(iox::mepoo::SegmentManager<>); }
uint64_t alignof_seg() { return alignof(iox::mepoo::SegmentManager<>); }
uint64_t sizeof_g() { return sizeof(T); }
uint64_t alignof_g() { return alignof(T); }
} // namespace vd
template class iox::roudi::GenericMemoryBlock<vd::T>;
