// instantiates the user-facing endpoints so that their member functions exist in the compiled unit
#include "iceoryx_posh/popo/client.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/publisher.hpp"
#include "iceoryx_posh/popo/server.hpp"
#include "iceoryx_posh/popo/subscriber.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"

struct Data
{
    uint64_t a{0};
    uint64_t b{0};
};
template class iox::popo::SubscriberImpl<Data>;
template class iox::popo::PublisherImpl<Data>;
template class iox::popo::ClientImpl<Data, Data>;
template class iox::popo::ServerImpl<Data, Data>;
template class iox::popo::UntypedSubscriberImpl<>;
template class iox::popo::UntypedPublisherImpl<>;
template class iox::popo::UntypedClientImpl<>;
template class iox::popo::UntypedServerImpl<>;
template class iox::popo::BaseSubscriber<iox::SubscriberPortUserType>;
template class iox::popo::BasePublisher<iox::PublisherPortUserType>;
template class iox::popo::BaseClient<>;
template class iox::popo::BaseServer<>;
