// instantiations of the position independent pointers for the analysis (never executed)
#include "iox/detail/relative_pointer_data.hpp"
#include "iox/relative_pointer.hpp"
#include "iox/relocatable_ptr.hpp"
#include <cstdint>

template class iox::PointerRepository<uint64_t, void*>;
template class iox::RelativePointer<int>;
template class iox::relocatable_ptr<int>;

namespace vd
{
void pack(iox::RelativePointerData* out, uint16_t id, uint64_t offset)
{
    *out = iox::RelativePointerData(id, offset);
}
} // namespace vd
