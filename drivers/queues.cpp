// instantiates the queue templates of /repo for analysis (never executed)
#include "iox/detail/spsc_fifo.hpp"
#include "iox/detail/spsc_sofi.hpp"
#include "iox/detail/mpmc_lockfree_queue.hpp"
#include "iox/detail/mpmc_resizeable_lockfree_queue.hpp"
namespace vd
{
struct Rec
{
    uint64_t a;
    uint64_t b;
    uint32_t c;
};
struct Own
{
    Own() noexcept;
    Own(const Own&) noexcept;
    Own(Own&&) noexcept;
    Own& operator=(const Own&) noexcept;
    Own& operator=(Own&&) noexcept;
    ~Own() noexcept;
    uint64_t a;
};
} // namespace vd
namespace iox
{
namespace concurrent
{
template class SpscFifo<vd::Rec, 7>;
template class SpscSofi<vd::Rec, 7>;
template class MpmcIndexQueue<7>;
template class CyclicIndex<7>;
template class MpmcLockFreeQueue<vd::Own, 7>;
template class MpmcResizeableLockFreeQueue<vd::Own, 7>;
} // namespace concurrent
} // namespace iox
