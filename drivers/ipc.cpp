// instantiates the member templates of the IPC channels
#include "iox/message_queue.hpp"
#include "iox/named_pipe.hpp"
#include "iox/unix_domain_socket.hpp"
namespace iox
{
#define SEND(C, M) template expected<void, PosixIpcChannelError> C::M(const string<100>&) const noexcept;
#define TSEND(C, M) template expected<void, PosixIpcChannelError> C::M(const string<100>&, const units::Duration&) const noexcept;
#define RECV(C, M) template expected<void, PosixIpcChannelError> C::M(string<100>&) const noexcept;
#define TRECV(C, M) template expected<void, PosixIpcChannelError> C::M(string<100>&, const units::Duration&) const noexcept;
SEND(UnixDomainSocket, send)
TSEND(UnixDomainSocket, timedSend)
RECV(UnixDomainSocket, receive)
TRECV(UnixDomainSocket, timedReceive)
SEND(MessageQueue, send)
TSEND(MessageQueue, timedSend)
RECV(MessageQueue, receive)
TRECV(MessageQueue, timedReceive)
SEND(NamedPipe, send)
SEND(NamedPipe, trySend)
TSEND(NamedPipe, timedSend)
template expected<void, PosixIpcChannelError> NamedPipe::receive(NamedPipe::Message_t&) const noexcept;
template expected<void, PosixIpcChannelError> NamedPipe::tryReceive(NamedPipe::Message_t&) const noexcept;
template expected<void, PosixIpcChannelError> NamedPipe::timedReceive(NamedPipe::Message_t&, const units::Duration&) const noexcept;
} // namespace iox
