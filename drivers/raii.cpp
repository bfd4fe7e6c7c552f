// instantiates the user-facing endpoints with and without user header, and the smart pointer behind samples, requests and responses
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"

struct Data
{
    Data() noexcept = default;
    Data(uint64_t x, uint64_t y) noexcept
        : a(x)
        , b(y)
    {
    }
    uint64_t a{0};
    uint64_t b{0};
};
struct Hdr
{
    uint32_t x{0};
    uint32_t y{0};
    uint32_t z{0};
};
struct Res
{
    uint64_t c[5];
};
using namespace iox::popo;
template class iox::unique_ptr<Data>;
template class iox::popo::SubscriberImpl<Data>;
template class iox::popo::PublisherImpl<Data>;
template class iox::popo::PublisherImpl<Data, Hdr>;
template class iox::popo::ClientImpl<Data, Res>;
template class iox::popo::ServerImpl<Data, Res>;
template class iox::popo::UntypedSubscriberImpl<>;
template class iox::popo::UntypedPublisherImpl<>;
template class iox::popo::UntypedClientImpl<>;
template class iox::popo::UntypedServerImpl<>;
template class iox::popo::Sample<Data>;
template class iox::popo::Sample<Data, Hdr>;
template class iox::popo::Request<Data>;
template class iox::popo::Response<Res>;

void driver(PublisherImpl<Data>& p, PublisherImpl<Data, Hdr>& ph, ClientImpl<Data, Res>& c, ServerImpl<Data, Res>& s, Request<const Data>& r)
{
    auto x = p.loan(uint64_t{1}, uint64_t{2});
    x.value().publish();
    auto y = ph.loan(uint64_t{1}, uint64_t{2});
    y.value().publish();
    static_cast<void>(p.publishResultOf([](Data* d) { d->a = 3; }));
    auto q = c.loan(uint64_t{1}, uint64_t{2});
    static_cast<void>(q.value().send());
    auto z = s.loan(r);
    static_cast<void>(z.value().send());
}
