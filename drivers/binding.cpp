// where the fields of the options of the C++ API lie; compiled, never run
#include "iceoryx_posh/popo/client_options.hpp"
#include "iceoryx_posh/popo/notification_callback.hpp"
#include "iceoryx_posh/popo/publisher_options.hpp"
#include "iceoryx_posh/popo/server_options.hpp"
#include "iceoryx_posh/popo/subscriber_options.hpp"
#include "iceoryx_binding_c/api.h"
#include "iceoryx_binding_c/service_description.h"
#include <cstddef>
#pragma GCC diagnostic ignored "-Winvalid-offsetof"

#define OFF(T, F)                                                                                                      \
    uint64_t off_##T##_##F()                                                                                           \
    {                                                                                                                  \
        return offsetof(iox::popo::T, F);                                                                              \
    }
namespace vd
{
OFF(ClientOptions, responseQueueCapacity)
OFF(ClientOptions, nodeName)
OFF(ClientOptions, connectOnCreate)
OFF(ClientOptions, responseQueueFullPolicy)
OFF(ClientOptions, serverTooSlowPolicy)
OFF(ServerOptions, requestQueueCapacity)
OFF(ServerOptions, nodeName)
OFF(ServerOptions, offerOnCreate)
OFF(ServerOptions, requestQueueFullPolicy)
OFF(ServerOptions, clientTooSlowPolicy)
OFF(PublisherOptions, historyCapacity)
OFF(PublisherOptions, nodeName)
OFF(PublisherOptions, offerOnCreate)
OFF(PublisherOptions, subscriberTooSlowPolicy)
OFF(SubscriberOptions, queueCapacity)
OFF(SubscriberOptions, historyRequest)
OFF(SubscriberOptions, nodeName)
OFF(SubscriberOptions, subscribeOnCreate)
OFF(SubscriberOptions, queueFullPolicy)
OFF(SubscriberOptions, requiresPublisherHistorySupport)
using Callback = iox::popo::NotificationCallback<int, void>;
uint64_t off_callback()
{
    return offsetof(Callback, m_callback);
}
uint64_t off_context()
{
    return offsetof(Callback, m_contextData);
}
uint64_t size_serviceString()
{
    return sizeof(iox_service_description_t::serviceString);
}
uint64_t size_clientNodeName()
{
    return sizeof(iox_client_options_t::nodeName);
}
uint64_t size_serverNodeName()
{
    return sizeof(iox_server_options_t::nodeName);
}
} // namespace vd
namespace vd
{
uint64_t align()
{
    return iox::CHUNK_DEFAULT_USER_PAYLOAD_ALIGNMENT;
}
uint64_t nosize()
{
    return iox::CHUNK_NO_USER_HEADER_SIZE;
}
uint64_t noalign()
{
    return iox::CHUNK_NO_USER_HEADER_ALIGNMENT;
}
uint64_t cap_idstring()
{
    return iox::capro::IdString_t::capacity();
}
} // namespace vd
