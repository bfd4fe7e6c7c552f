// names the enumerations whose enumerators rules refer to; compiled with full debug information, never run
#include "iceoryx_posh/internal/popo/ports/base_port_data.hpp"
#include "iceoryx_posh/internal/roudi/port_manager.hpp"
#include "iceoryx_posh/internal/roudi/process_manager.hpp"
#include "iceoryx_posh/internal/runtime/ipc_interface_base.hpp"
#include "iceoryx_posh/internal/runtime/ipc_runtime_interface.hpp"
#include "iceoryx_posh/internal/runtime/posh_runtime_impl.hpp"
#include "iceoryx_posh/internal/runtime/shared_memory_user.hpp"
#include "iceoryx_posh/roudi/roudi_app.hpp"
#include "iceoryx_posh/roudi/memory/memory_provider.hpp"
#include "iox/detail/posix_acl.hpp"
#include "iox/duration.hpp"
#include "iox/semaphore_interface.hpp"
#include "iox/posix_ipc_channel.hpp"
#include "iox/lock_interface.hpp"
#include "iox/mutex.hpp"

iox::runtime::IpcMessageType e1;
iox::runtime::IpcMessageErrorType e2;
iox::roudi::PortPoolError e3;
iox::roudi::MonitoringMode e4;
iox::capro::Scope e5;
iox::capro::Interfaces e6;
iox::popo::QueueFullPolicy e7;
iox::popo::ConsumerTooSlowPolicy e8;
iox::version::CompatibilityCheckLevel e9;
iox::AccessMode e10;
iox::ResourceType e11;
iox::OpenMode e12;
iox::runtime::SharedMemoryUserError e13;
iox::runtime::IpcRuntimeInterface::RegAckResult e14;
iox::detail::PosixAcl::Category e15;
iox::detail::PosixAcl::Permission e16;

iox::PosixIpcChannelSide e17;
iox::PosixIpcChannelError e18;
iox::SemaphoreWaitState e19;
iox::units::TimeSpecReference e20;

// constants of /repo, readable like enumerators
namespace verif
{
enum class Limits : uint64_t
{
    Publisher = iox::PublisherPortUserType::MemberType_t::ChunkSenderData_t::ChunkDistributorDataProperties_t::MAX_HISTORY_CAPACITY,
    Subscriber = iox::SubscriberPortUserType::MemberType_t::ChunkQueueData_t::MAX_CAPACITY,
    Client = iox::popo::ClientChunkQueueConfig::MAX_QUEUE_CAPACITY,
    Server = iox::popo::ServerChunkQueueConfig::MAX_QUEUE_CAPACITY
};
}
verif::Limits l1;
iox::LockError e40;
iox::TryLockError e41;
iox::TryLock e42;
iox::MutexPriorityInheritance e43;
iox::capro::CaproMessageType e44;
iox::capro::CaproServiceType e45;
iox::roudi::MemoryProviderError e_mpe;

// C API and what it translates
#include "iceoryx_binding_c/enums.h"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/wait_set.hpp"
#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"
#include "iceoryx_posh/runtime/service_discovery.hpp"
namespace verif
{
iox::SubscribeState b1;
iox::popo::ChunkReceiveResult b2;
iox::popo::AllocationError b3;
iox::popo::ClientSendError b4;
iox::popo::ServerSendError b5;
iox::popo::WaitSetError b6;
iox::popo::ListenerError b7;
iox::ConnectionState b8;
iox::popo::ServerRequestResult b9;
iox::popo::SubscriberEvent b10;
iox::popo::SubscriberState b11;
iox::popo::ClientEvent b12;
iox::popo::ClientState b13;
iox::popo::ServerEvent b14;
iox::popo::ServerState b15;
iox::runtime::ServiceDiscoveryEvent b16;
iox::popo::MessagingPattern b17;
iox_SubscribeState c1;
iox_ChunkReceiveResult c2;
iox_AllocationResult c3;
iox_ClientSendResult c4;
iox_ServerSendResult c5;
iox_WaitSetResult c6;
iox_ListenerResult c7;
iox_ConnectionState c8;
iox_ServerRequestResult c9;
iox_SubscriberEvent c10;
iox_SubscriberState c11;
iox_ClientEvent c12;
iox_ClientState c13;
iox_ServerEvent c14;
iox_ServerState c15;
iox_ServiceDiscoveryEvent c16;
iox_MessagingPattern c17;
iox_QueueFullPolicy c18;
iox_ConsumerTooSlowPolicy c19;
} // namespace verif

// configuration of RouDi
#include "iceoryx_posh/roudi/cmd_line_args.hpp"
#include "iceoryx_posh/roudi/iceoryx_roudi_app.hpp"
#include "iceoryx_posh/roudi/roudi_cmd_line_parser.hpp"
#include "iceoryx_posh/roudi/roudi_config_file_provider.hpp"
#include "iox/log/logstream.hpp"
namespace verif
{
enum class ConfigLimits : uint64_t
{
    Segments = iox::MAX_SHM_SEGMENTS,
    Pools = iox::MAX_NUMBER_OF_MEMPOOLS
};
ConfigLimits l2;
iox::roudi::RouDiConfigFileParseError d1;
iox::config::CmdLineParserResult d2;
iox::log::LogLevel d3;
} // namespace verif
