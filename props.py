"""All properties: statement, anchors, deciding method.  gen.py turns this into properties.jsonl and MANIFEST.json."""
NOTES = ("All checks are static: clang compiles the needed units of /repo's current tree to LLVM IR, tool/irx.cpp links, inlines and "
         "normalises the graphs of the anchored functions, rules/*.py decide path, dataflow, typestate and ordering obligations on them. "
         "No code of /repo is executed. Exit 3 means the analysis itself could not be carried out.")
PROPS = []
IR = "static path/dataflow analysis on normalised LLVM IR: "


def prop(**k):
    k.setdefault("level_note", "Every feasible path of the anchored functions in the extracted flow graphs is covered; the structural clauses named in DESIGN.md are decided, callees listed there as opaque are taken at their own property's word.")
    k["technique"] = IR + k["technique"] if not k.pop("raw", False) else k["technique"]
    PROPS.append(k)


prop(id="P01", title="A chunk's reference count equals its owners; freed once, after the last",
     statement="A shared-memory chunk stays allocated while any handle owns it, and is given back exactly once, when the last owner lets go: every operation that creates, copies, moves, adopts, releases or destroys an owning handle changes the shared count by exactly the change in the number of owners, self-assignment included. The hand-over is ordered: everything any owner did with the chunk happens before it is freed, and before a publisher reuses it as sole owner.",
     over=["schedules", "programs", "histories"], forall="every sequence and interleaving of handle operations in every process",
     why="Tests exercise a few hand-written sequences on strongly ordered hardware; a missing count on one branch or a missing ordering only shows under particular sequences, schedules or memory models.",
     files=["iceoryx_posh/source/mepoo/shared_chunk.cpp", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"],
     mech=[("reference count of a chunk", "SharedChunk::{SharedChunk,operator=,release,~SharedChunk}"), ("shared-memory owner slot", "ShmSafeUnmanagedChunk")],
     technique="ownership ledger (count delta == owner delta on every path), memory-order rules")
prop(id="P02", title="The allocator hands out each chunk once, large enough; takes back only its own",
     statement="A loaned chunk never overlaps another live chunk and is at least as large as requested, because it is carved from one free slot of a pool with sufficiently large chunks. Only the start address of a chunk of the pool is accepted back, exactly once, an invalid or double return being fatal, and the pool's used count follows each take and return. Chunk and bookkeeping record are taken and returned together, the memory reserved at start-up covers everything that the pools hand out, each pool having a part of its own, and out-of-memory is reported instead of served.",
     over=["inputs", "histories", "configurations"], forall="every request size, pool configuration and history of takes and returns",
     why="Unit tests sample a few configurations; overlapping or undersized chunks show only for particular sizes, addresses and fill levels.",
     files=["iceoryx_posh/source/mepoo/mem_pool.cpp", "iceoryx_posh/source/mepoo/memory_manager.cpp", "iceoryx_posh/source/mepoo/chunk_management.cpp", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl", "iceoryx_hoofs/memory/source/bump_allocator.cpp"],
     mech=[("start-up memory", "MePooSegment::{MePooSegment,createSharedMemoryObject}, MemoryManager::configureMemoryManager, BumpAllocator::allocate"), ("pool free list", "MemPool::{MemPool,getChunk,freeChunk}"), ("pool selection and records", "MemoryManager::{getChunk,freeChunk,addMemPool,generateChunkManagementPool,required*MemorySize}")],
     technique="guard/dominance and decision-table rules, affine address comparison")
prop(id="P03", title="Chunk layout: headers, back-offset and payload fit, aligned and disjoint",
     statement="For every payload size, payload alignment and user header that ChunkSettings::create accepts, the chunk header constructor places header, user header, back-offset and payload disjointly inside the required chunk size, with the payload aligned as requested, and no size computation wraps around. The header is found again from the payload and from the user header, alignments that are no power of two and misfitting user headers are refused, and a header whose used size exceeds its chunk is never completed.",
     over=["inputs"], forall="every payload size, alignment, user header size and alignment, and every chunk address",
     why="The input space is the product of four integers and an address; tests sample a few dozen combinations and none near the type limits.",
     files=["iceoryx_posh/source/mepoo/chunk_header.cpp", "iceoryx_posh/source/mepoo/chunk_settings.cpp"],
     mech=[("size computation", "ChunkSettings::create / calculateRequiredChunkSize"), ("placement and back-offset", "ChunkHeader::ChunkHeader"), ("navigation", "ChunkHeader::{userPayload,userHeader,fromUserPayload,fromUserHeader}")],
     technique="abstract interpretation (linear forms with bounds and congruences)")
prop(id="P04", title="The lock-free free list never hands one slot to two owners and never loses one",
     statement="Between initialisation and any history of concurrent takes and gives, each slot is either in the free list or held by one taker: the head changes only by compare-and-swap of the exact word just read, with a change counter that rules out ABA, and with the slot's link written before it is reachable. A slot that is out of range or not currently taken is refused, and initialisation chains every slot exactly once inside the reserved memory.",
     over=["schedules", "histories"], forall="every interleaving of push and pop by any number of threads or processes",
     why="The window between reading the head and swapping it is a few instructions wide; tests cannot enumerate the interleavings or a weaker memory model.",
     files=["iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"],
     mech=[("tagged-head free list", "MpmcLoFFLi::{init,push,pop}")],
     technique="compare-and-swap discipline, decision tables, memory-order and bound rules")
prop(id="P05", title="Single-producer queues lose nothing silently, read only published slots",
     statement="An element pushed into the single-producer queues is returned once, by pop or (SpscSofi overflow) by push as the evicted oldest element; a push is refused or evicts exactly when the capacity is reached. A slot is read only after it was published with release/acquire ordering and is overwritten only after it was given back, and a consumer that loses the race against eviction does not return the stale copy. The SpscSofi capacity changes only while it is empty and within its storage.",
     over=["schedules", "histories"], forall="every interleaving of one producer and one consumer, every fill level and capacity",
     why="Wrong slots, missing ordering or an off-by-one at the full/empty boundary show only in narrow interleavings or on weakly ordered CPUs.",
     files=["iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_fifo.inl", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl"],
     mech=[("bounded FIFO", "SpscFifo::{push,pop,size,empty}"), ("overflowing FIFO", "SpscSofi::{push,pop,popIf,setCapacity}")],
     technique="publication order, slot-index and boundary rules over instantiating drivers")
prop(id="P06", title="Multi-producer queue: one user per slot, elements delivered or evicted once",
     statement="In the multi-producer multi-consumer queue every storage slot cycles free, filled, used, emptied, free, on every path of push, tryPush, pop and resize, so that no slot is lost or shared; an element is constructed before its slot is published and destroyed when taken out. Index cells are claimed only by compare-and-swap on the expected cycle, with release/acquire ordering between the writer and the reader of a slot, and the element evicted by an overflowing push is returned to the caller. Capacity changes are made by one caller at a time and within the storage.",
     over=["schedules", "histories"], forall="every interleaving of any number of producers, consumers and resizers",
     why="Lost or duplicated slots need specific interleavings of several threads, or a wrap-around of the cycle counter.",
     files=["iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl",
            "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_lockfree_queue.inl",
            "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl"],
     mech=[("cyclic index queue", "MpmcIndexQueue::{push,pop,popIfFull,popIfSizeIsAtLeast}"), ("element queue", "MpmcLockFreeQueue::{push,tryPush,pop}"), ("resizing", "MpmcResizeableLockFreeQueue::setCapacity")],
     technique="slot typestate, compare-and-swap discipline, memory-order rules over instantiating drivers")
prop(id="P07", title="Every chunk an application holds is recorded in shared memory, exactly once",
     statement="The list of chunks in use keeps each of its slots in exactly one of the free and the used list: insert moves the first free slot with the chunk into the used list or refuses when full, and remove hands out exactly the recorded chunk with the requested header and frees its slot, or changes nothing. Cleanup after a crash gives back every chunk recorded in any slot, regardless of the links, after synchronising with the owner, whose every change is published.",
     over=["histories", "crash points"], forall="every sequence of insert and remove and every point at which the owning process dies between operations",
     why="A slot lost or linked twice shows only after particular insert/remove sequences; tests do not kill processes between arbitrary operations.",
     files=["iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"],
     mech=[("lists in shared memory", "UsedChunkList::{insert,remove,cleanup,init}")],
     technique="value dataflow of list cells and heads, loop coverage, publication order")

BB = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/"
prop(id="P08", title="A publisher's chunk is handed out, sent or freed exactly once",
     statement="Every chunk a sender hands out is recorded as in use and is either freshly allocated or the last sent chunk with no other owner, large enough and formatted for the requested settings. Sending delivers the named chunk once with the next sequence number and keeps it as last chunk, freeing the previous one; pushing to history, releasing and releasing everything give up exactly the recorded chunks. A chunk that is not recorded as in use is reported and never sent, freed or stored.",
     over=["histories", "inputs", "crash points"], forall="every sequence of allocate, send, push to history and release, for every chunk settings and every state of the last chunk",
     why="Reuse of the last chunk depends on who else still holds it and on the size history; leaks and double frees show only after particular sequences.",
     files=[BB + "chunk_sender.inl"],
     mech=[("allocation and reuse", "ChunkSender::tryAllocate"), ("delivery", "ChunkSender::{send,sendToQueue,pushToHistory}"), ("release", "ChunkSender::{release,releaseAll}")],
     technique="chunk typestate and decision tables over all paths of the sender, argument provenance")
prop(id="P09", title="A subscriber's chunk is recorded as held until released, or freed",
     statement="A chunk taken from a queue is either recorded as held and handed to the reader, or freed: when the reader already holds too many, when its header version differs, and when the queue is cleared. Releasing gives up exactly the chunk recorded for that header and reports unknown ones; releasing everything frees all held and all queued chunks. A reported overflow is shown to the reader and cleared only by showing it.",
     over=["histories", "inputs", "crash points"], forall="every content of the queue, every number of held chunks and every header presented for release",
     why="A chunk dropped on a rejection path leaks only when that path is taken; pools run dry long after the test ends.",
     files=[BB + "chunk_receiver.inl", BB + "chunk_queue_popper.inl"],
     mech=[("reader", "ChunkReceiver::{tryGet,release,releaseAll}"), ("queue", "ChunkQueuePopper::{tryPop,clear,hasLostChunks}")],
     technique="chunk typestate over all paths, decision tables of results against outcomes")
prop(id="P10", title="Delivery reaches every queue as the policies demand; history in order",
     statement="Every delivered chunk is pushed to each connected queue; a refused push is repeated until it succeeds or the queue is gone iff both sides asked for blocking, and otherwise reported as lost to that queue. A connecting queue gets exactly the newest requested samples of the history, oldest first, and the history keeps the newest samples up to its capacity and frees what it drops. Queue list and history are used only under the distributor's lock, which is free while waiting, and each queue type refuses or evicts when full as it was created.",
     over=["schedules", "histories", "inputs"], forall="every set of connected queues and policies, every interleaving with connects and disconnects, and every history request",
     why="Blocking, disconnect while blocked and history boundaries need specific interleavings and sizes that tests sample a few of.",
     files=[BB + "chunk_distributor.inl", BB + "chunk_queue_pusher.inl", BB + "variant_queue.inl"],
     mech=[("delivery", "ChunkDistributor::{deliverToAllStoredQueues,deliverToQueue}"), ("history", "ChunkDistributor::{tryAddQueue,addToHistoryWithoutDelivery,clearHistory}"), ("queue types", "VariantQueue, ChunkQueuePusher::push")],
     technique="path-sensitive policy automaton, lock typestate over every shared access, loop coverage, history index dataflow")

prop(id="P11", title="No notification is lost: a wait returns every one and never sleeps on one",
     statement="A notification raised before or during a wait is reported by that wait or the next one, and what was written before raising it is visible to the thread that gets it; a wait blocks only after it found no raised notification since it last drained the semaphore. Each push into a queue with an attached listener notifies it after the chunk is in the queue, with the index it was attached with, and never after it was detached. Destroying the listener ends its wait.",
     over=["schedules"], forall="every interleaving of notifiers, waiting thread, attach, detach and destroy, under the C++ memory model",
     why="A lost wake-up needs a notification in a window of a few instructions; stress tests hit it rarely and hang instead of failing.",
     files=["iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp", BB + "chunk_queue_pusher.inl", BB + "chunk_queue_popper.inl"],
     mech=[("waiting", "ConditionListener::{wait,timedWait,waitImpl,destroy}"), ("notifying", "ConditionNotifier::notify"), ("queue", "ChunkQueuePusher::push, ChunkQueuePopper::{set,unset}ConditionVariable")],
     technique="publication-order and scan-before-block path analysis on the IR, lock typestate")
POP = "iceoryx_posh/source/popo/"
PIN = "iceoryx_posh/include/iceoryx_posh/internal/popo/"
prop(id="P12", title="Attached events reach the right callback until detached, and never after",
     statement="An event or state attaches to a listener or wait set at most once and takes one free index; it is reported with exactly the origin, id and callback it was attached with, event-based ones once per notification and state-based ones for as long as their condition holds. Detaching from either side, destroying the object or the listener or wait set calls the invalidation callback once, clears both sides, detaches the condition variable from the port and returns the index exactly once, after the slot was reset. Handle operations are serialised by the handle's lock.",
     over=["histories", "schedules"], forall="every sequence of attach, detach, trigger, move and destruction of events, listeners and wait sets",
     why="Stale triggers, doubly returned indices and dangling condition variables appear only after particular attach and detach histories.",
     files=[POP + "trigger.cpp", POP + "trigger_handle.cpp", POP + "listener.cpp", PIN + "listener.inl", PIN + "wait_set.inl", PIN + "base_subscriber.inl", PIN + "base_client.inl", PIN + "base_server.inl", "iceoryx_binding_c/source/cpp2c_subscriber.cpp"],
     mech=[("trigger", "Trigger, TriggerHandle"), ("listener", "Listener::{addEvent,removeTrigger,threadLoop}, Event_t"), ("wait set", "WaitSet::{attachImpl,removeTrigger,createVectorWithTriggeredTriggers}"), ("endpoints", "Base{Subscriber,Client,Server}::{enable,disable}{Event,State}, cpp2c_Subscriber")],
     technique="decision tables of final field values over all paths, callback typestate, index ledger, lock typestate")
PP = "iceoryx_posh/source/popo/ports/"
prop(id="P13", title="Ports follow the connection protocol in every state for every message",
     statement="For every state, request and message a publisher, subscriber, client or server port goes to the specified next state, answers with the specified message (own service, own queue, requested history) and changes its queues accordingly: it acknowledges iff the queue was added or removed, and stopping or disconnecting removes the queues. A user's request always ends up in the request flag, and a port's queue blocks or discards, with the capacity asked for, as its options say. Messages the protocol does not foresee change nothing.",
     over=["histories", "inputs"], forall="every state, request flag and message type of every kind of port",
     why="The tables have hundreds of cells; a wrong one shows only after the connect and disconnect history that leads there.",
     files=[PP + n + ".cpp" for n in ("publisher_port_roudi", "subscriber_port_single_producer", "subscriber_port_multi_producer", "client_port_roudi", "server_port_roudi", "publisher_port_user", "subscriber_port_user", "client_port_user", "server_port_user", "client_port_data", "server_port_data", "subscriber_port_data")],
     mech=[("RouDi side", "{Publisher,Client,Server}PortRouDi, SubscriberPort{Single,Multi}Producer::{tryGetCaProMessage,dispatchCaProMessageAndGetPossibleResponse}"), ("user side", "{Publisher,Subscriber,Client,Server}PortUser"), ("creation", "{Client,Server,Subscriber}PortData, PortPool::addSubscriberPort")],
     technique="complete transition tables by constant propagation along every path, compared with the protocol")
prop(id="P14", title="Requests and responses reach the right peer; every chunk sent or freed once",
     statement="A request names its client's queue and a response copies queue and sequence id from its request, so that it is delivered to the client that asked, looked up among all connected queues, or freed. Sending hands the chunk over exactly once and returns an error iff it was not delivered; releasing gives up exactly the chunk of the given header on the side that owns it. Allocation and reception return the header inside the chunk obtained, or the error, and never a chunk nobody holds.",
     over=["histories", "inputs"], forall="every connection state, every set of connected clients and every header presented",
     why="Clients vanishing between request and response, index hints going stale and error paths that forget the chunk need particular histories.",
     files=[PP + "client_port_user.cpp", PP + "server_port_user.cpp", POP + "rpc_header.cpp", BB + "chunk_distributor.inl"],
     mech=[("client", "ClientPortUser::{allocateRequest,sendRequest,getResponse,release*}"), ("server", "ServerPortUser::{getRequest,allocateResponse,sendResponse,release*}"), ("lookup", "ChunkDistributor::getQueueIndex")],
     technique="decision tables of results, header fields and chunk operations over all paths, lookup loop coverage")
prop(id="P15", title="A loaned or taken object owns its chunk: it is handed over once or released once",
     statement="Every loan or take through the user API obtains one chunk sized for the type and returns it in an object that owns exactly its payload; the object's destruction or replacement releases the chunk once through the endpoint it came from. Publishing or sending takes the chunk out of the object first and hands it to the port once, so that a moved-from, sent or empty object does nothing. Errors are forwarded and leave no chunk behind, and published copies are complete before they are published.",
     over=["histories", "inputs"], forall="every sequence of loan, take, move, assign, send and destruction of samples, requests and responses, for every payload and header type",
     why="Double release or leak depends on moves, early returns and error paths; tests with mocked ports look at a few.",
     files=[PIN + n + ".inl" for n in ("smart_chunk", "sample", "request", "response", "publisher_impl", "subscriber_impl", "client_impl", "server_impl", "untyped_publisher_impl", "untyped_subscriber_impl", "untyped_client_impl", "untyped_server_impl")] + ["iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl"],
     mech=[("typed endpoints", "{Publisher,Subscriber,Client,Server}Impl::{loan,take,publish,send}"), ("smart objects", "Sample::publish, {Request,Response}::send, SmartChunk::release"), ("smart pointer", "unique_ptr"), ("untyped endpoints", "Untyped{Publisher,Subscriber,Client,Server}Impl")],
     technique="ownership typestate over all paths with memory cells, final-value tables, over instantiating drivers")
RD = "iceoryx_posh/source/roudi/"
prop(id="P16", title="A process that ends, dies or is replaced leaves nothing behind in RouDi",
     statement="When a process unregisters, misses its heartbeat or registers again, every port, interface and condition variable it owns, and no other, is destroyed, its heartbeat and its entry are erased, and nothing is used after its removal. Destroying a port withdraws it, tells the registry, all peers and interfaces, gives back all of its chunks and then removes it from its pool. Before a process or RouDi shuts down, senders blocked on it are released.",
     over=["histories", "crash points"], forall="every set of ports and processes and every order in which processes register, die and are removed",
     why="What leaks or dangles depends on which ports a dying process held and where they are in the lists; tests cover a few constellations.",
     files=[RD + "port_manager.cpp", RD + "port_pool.cpp", RD + "process_manager.cpp", PP + "publisher_port_roudi.cpp", PP + "client_port_roudi.cpp", PP + "server_port_roudi.cpp"],
     mech=[("port removal", "PortManager::{deletePortsOfProcess,destroy*Port,handle*,unblock*}"), ("pool", "PortPool::{add,remove,get}*"), ("processes", "ProcessManager::{removeProcess*,searchForProcessAndRemoveIt,monitorProcesses,registerProcess,unregisterProcess}")],
     technique="per-element decision tables of every list walk, ordered destruction protocol, on the IR")
prop(id="P17", title="Discovery connects exactly the matching ports; the registry tells the truth",
     statement="A publisher and a subscriber, or a client and a server, are connected iff their service descriptions are equal and their blocking and history policies allow each other; every offer, subscription or connection request reaches every such peer (not those on the same gateway interface) and the answers settle the connection or reject it. There is at most one server per service and nobody but RouDi publishes internal services. The service registry counts every offered publisher and server, searches report exactly the matching entries, and every change is published.",
     over=["histories", "inputs"], forall="every set of ports with any options, in every order of creation, offer, subscription and removal",
     why="Matching depends on combinations of options, on gateway interfaces and on slots left by earlier services; tests cover selected constellations.",
     files=[RD + "port_manager.cpp", RD + "service_registry.cpp", "iceoryx_posh/source/capro/service_description.cpp"],
     mech=[("matching", "PortManager::isCompatible{PubSub,ClientServer}, ServiceDescription::operator=="), ("distribution", "PortManager::sendToAllMatching*Ports, doDiscoveryFor*Port"), ("registry", "ServiceRegistry"), ("creation", "PortManager::acquire*PortData*")],
     technique="complete truth tables of predicates, per-element tables of distribution loops, effect tables on the IR")
RT = "iceoryx_posh/source/runtime/"
prop(id="P18", title="RouDi answers well-formed requests as the protocol says and rejects the rest",
     statement="For every message RouDi receives, exactly the handler of its type is called, iff the runtime name is valid, the number of fields is right and service description and options can be read, and then with the fields of that message; anything else changes nothing. Every request of a registered process is answered with the acknowledgement naming the created object, or with the error that occurred, and is never acknowledged without the object; processes of an incompatible version or beyond the maximum are not registered. What is written to the wire is read back field by field, and values out of range, negative or with wrong lengths are rejected.",
     over=["inputs", "histories"], forall="every message any process may send, for every outcome of the handling",
     why="Messages come from other processes and can contain anything; tests send a few malformed ones.",
     files=[RD + "roudi.cpp", RD + "process_manager.cpp", RT + "ipc_message.cpp", RT + "ipc_interface_base.cpp", "iceoryx_posh/source/capro/service_description.cpp", POP + "publisher_options.cpp", POP + "subscriber_options.cpp", POP + "client_options.cpp", POP + "server_options.cpp", "iceoryx_posh/source/version/version_info.cpp", "iceoryx_hoofs/utility/include/iox/detail/serialization.inl", RD + "port_manager.cpp"],
     mech=[("dispatch", "RouDi::processMessage"), ("handlers", "ProcessManager::{add*ForProcess,addProcess}"), ("wire format", "IpcMessage, Serialization, {ServiceDescription,*Options}::{serialize,deserialize}, stringToIpcMessageType"), ("versions", "VersionInfo::checkCompatibility")],
     technique="decision tables per message type, message-content dataflow, field-order and range analysis on the IR")
prop(id="P19", title="A runtime gets what RouDi created for it or an error; maps only what it may",
     statement="A request for a port, condition variable or interface is sent once with the runtime's name, the service and the options, limited to what is possible, and returns the object at the address RouDi acknowledged, or an error (nothing) for every other answer. A process is registered iff RouDi acknowledged this very request, it gives its heartbeat in every interval and announces its end. Every segment the segment manager assigns to the user is mapped with the access it says, all or none, and is unregistered before it is unmapped.",
     over=["inputs", "histories"], forall="every answer RouDi may give (type, number of fields, content), every requested capacity, every failing step of the mapping",
     why="Wrong, late or truncated answers and failures in the middle of the mapping do not occur with a healthy RouDi, which is what tests use.",
     files=[RT + "posh_runtime_impl.cpp", RT + "ipc_runtime_interface.cpp", RT + "ipc_interface_base.cpp", RT + "shared_memory_user.cpp", RT + "posh_runtime.cpp"],
     mech=[("requests", "PoshRuntimeImpl::{getMiddleware*,request*FromRoudi,convert_id_and_offset}"), ("registration", "IpcRuntimeInterface::{create,waitForRegAck,sendRequestToRouDi}"), ("channel", "IpcInterface::{send,receive,timedSend,timedReceive}"), ("mapping", "SharedMemoryUser")],
     technique="decision tables per answer and requested value, message-content dataflow, contract reachability on the IR")
prop(id="P20", title="Only the members of a segment's groups get the access configured for them",
     statement="A process is told of a payload segment as writable iff one of its user's groups is the segment's writer group (one such segment at most), as readable iff one is its reader group, and of no other; it allocates only from the segment it may write. The segment's access control list gives the writer group read-write, the reader group read-only access and others none, and the memory is not used unless the system accepted the whole list. The groups of a user are those the system lists for the effective user id, and groups are compared by id.",
     over=["inputs", "programs"], forall="every configuration of segments, every user and membership of groups, every failing system call on the way",
     why="Tests run as one user with the groups of the build machine and cannot make the ACL calls fail one by one.",
     files=["iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl", "iceoryx_hoofs/posix/filesystem/source/posix_acl.cpp", "iceoryx_hoofs/posix/auth/source/posix_user.cpp", "iceoryx_hoofs/posix/auth/source/posix_group.cpp"],
     mech=[("mapping of segments to users", "SegmentManager::{getSegmentMappings,getSegmentInformationWithWriteAccessForUser}"), ("access rights", "MePooSegment::MePooSegment, PosixAcl"), ("users and groups", "PosixUser, PosixGroup")],
     technique="guard and completeness analysis over (group, segment) pairs, enumeration of access entries, system-call failure typestate on the IR")
prop(id="P21", title="A local IPC channel delivers a message whole or reports an error",
     statement="Sending on a unix domain socket, message queue or named pipe succeeds iff the channel took exactly the message with its terminator; a message above the limit, or on the wrong side, is refused without being sent. Receiving succeeds iff a message was taken from the channel and hands out exactly its bytes; an empty or unterminated message from any peer gives an error and reads nothing outside the buffer. In a named pipe every message occupies one slot from before it is written until after it is read, so none is lost, and timed calls wait for the timeout given.",
     over=["inputs", "schedules", "faults"], forall="every message and length, every datagram any peer may send, every failing system call, every interleaving of senders and receivers",
     why="Tests use well-formed peers, do not let system calls fail and cannot enumerate interleavings of the semaphores.",
     files=["iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp", "iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl", "iceoryx_hoofs/posix/ipc/source/message_queue.cpp", "iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl", "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp"],
     mech=[("transfer", "UnixDomainSocket::{timedSendImpl,timedReceiveImpl}, MessageQueue::{sendImpl,receiveImpl,receiveVerification}"), ("slots", "NamedPipe::{send,trySend,timedSend,receive,tryReceive,timedReceive}, NamedPipeData::initialize"), ("limits and names", "*Builder::create"), ("errors", "errnoToEnum")],
     technique="decision tables over system-call outcomes, length/index dataflow and semaphore-slot typestate on the IR")
prop(id="P22", title="System resources are acquired as asked, failures reported, released once",
     statement="A shared memory, mapping, file lock, semaphore, mutex, socket or queue object is handed out iff every system call needed to make it as configured succeeded; a failing call gives an error and leaves nothing open, mapped or created behind. What an object holds is released exactly once, by its last owner after moves, and only the one that created a name in the system removes it. Shared memory is never mapped smaller than asked for nor with other access than asked for, and only its creator sizes and zeroes it.",
     over=["inputs", "faults", "programs"], forall="every configuration, every system call failing with every errno at every point, every sequence of moves and destruction",
     why="Tests cannot make each system call fail in turn, and leaks or double closes of descriptors stay invisible in them.",
     files=["iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp", "iceoryx_hoofs/posix/ipc/source/posix_memory_map.cpp", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp", "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp", "iceoryx_hoofs/posix/sync/source/mutex.cpp", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp", "iceoryx_hoofs/posix/ipc/source/message_queue.cpp"],
     mech=[("creation", "PosixSharedMemoryBuilder::create, PosixMemoryMapBuilder::create, PosixSharedMemoryObjectBuilder::create, FileLockBuilder::create, NamedSemaphoreBuilder::create, UnnamedSemaphoreBuilder::create, MutexBuilder::create"), ("release", "destructors, move assignments"), ("outcome of a call", "IOX_POSIX_CALL")],
     technique="per-outcome evaluation of the flow graph (every system call's failure value and errno as input) and handle typestate on the IR")

prop(id="P23", title="Relative pointers denote the same object in every process",
     statement="A relative pointer keeps the id of the registered segment its target lies in and the distance from its start, and resolves to the start registered for that id in the reading process plus that distance; only null and moved-from pointers resolve to null. An address is found only in a segment that is registered and contains it, an id belongs to one segment at a time, and all registered segments are searched. The packed form used in the queues gives back exactly the id and offset it was made from, or null if they do not fit; a relocatable pointer keeps its target when it is copied or moved.",
     over=["inputs", "histories", "programs"], forall="every address, segment id, offset and order of registering and unregistering segments",
     why="Tests map a few segments of one process at a few addresses; every chunk, port and queue entry that crosses a process goes through this translation.",
     files=["iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer_data.inl", "iceoryx_hoofs/memory/source/relative_pointer_data.cpp", "iceoryx_hoofs/memory/include/iox/detail/relocatable_ptr.inl", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"],
     mech=[("segment table", "PointerRepository::registerPtr, registerPtrWithId, unregisterPtr, searchId, getBasePtr"), ("translation", "RelativePointer, ShmSafeUnmanagedChunk, relocatable_ptr"), ("packed form", "RelativePointerData")],
     technique="linear forms of stored ids, offsets and resolved addresses on every path; decision tables of the segment table; bit provenance of the packed form")

prop(id="P24", title="The data path uses no heap, takes no hidden lock and never waits unasked",
     statement="Loaning, taking and releasing samples, requests and responses, and asking for new or lost ones, complete without heap memory, locks, waiting, exceptions or system calls. Sending adds only the lock of the sending port's own queue list and a post to each receiver's semaphore, and sleeps only in the distributor while a queue that blocks the producer is full; a server's response never waits for its client. Reports of misuse through the logger and the error handler are not part of the path.",
     over=["inputs", "schedules", "programs"], forall="every state of ports, queues and memory pools, every policy and every path through the operations",
     why="A test cannot see that no path allocates or blocks; one slow path in one branch is enough to lose the real-time behaviour users choose the library for.",
     files=["iceoryx_posh/source/popo/ports/publisher_port_user.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_user.cpp", "iceoryx_posh/source/popo/ports/client_port_user.cpp", "iceoryx_posh/source/popo/ports/server_port_user.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_sender.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_receiver.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl", "iceoryx_posh/source/mepoo/memory_manager.cpp", "iceoryx_posh/source/mepoo/mem_pool.cpp"],
     mech=[("operations", "PublisherPortUser, SubscriberPortUser, ClientPortUser, ServerPortUser and the typed and untyped endpoints"), ("the only lock", "ThreadSafePolicy of ChunkDistributor"), ("the only wait", "ChunkDistributor::deliverToAllStoredQueues")],
     technique="interprocedural effect analysis: call-graph reachability of allocation, locking, waiting, throwing and system-call primitives")

prop(id="P25", title="Optional, variant, expected, unique_ptr: the object lives exactly once",
     statement="After every operation on an optional, variant or expected exactly the object lives in it that its tag announces, made from the given value, other object or arguments; nothing is built over a living object, destroyed twice, left behind, or used or destroyed as another type. Access to an absent object or the other alternative terminates or gives null. A unique_ptr deletes its object once, with the deleter it came with, unless it was moved out or released.",
     over=["inputs", "histories", "programs"], forall="every operation, every occupation of both operands including self-assignment, every element type",
     why="Tests use a few element types and orders; a missing or doubled destruction shows only for types that own something, such as the chunks in samples and the ports in endpoints.",
     files=["iceoryx_hoofs/vocabulary/include/iox/detail/optional.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/variant_internal.hpp", "iceoryx_hoofs/vocabulary/include/iox/detail/expected.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/expected_helper.hpp", "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl"],
     mech=[("typestate", "optional, variant, expected: constructors, assignments, emplace, reset, destructors"), ("access", "value, error, get, get_at_index, operator*, operator->"), ("ownership", "unique_ptr::{operator=, release, destroy, swap}")],
     technique="typestate of each storage on all paths, per initial occupation and aliasing, over opaque element types")

prop(id="P26", title="RouDi's management memory: room for every block, one life each",
     statement="The management memory RouDi creates is large and aligned enough for all its blocks (the port pool, the segment manager, heartbeats, introspection and discovery pools), is registered completely for relative pointers, and each block gets a disjoint part of it with its own size and alignment. No block is told of its memory before all memory exists; each block's object is built there once and destroyed once, before the memory is unmapped and before RouDi's lock is released. A failing step is reported and nothing announced.",
     over=["inputs", "histories", "faults"], forall="every set and order of blocks and providers, every size and alignment, every failing step",
     why="Tests use a few mocked blocks of fixed sizes; one byte too few or one block too early corrupts what every process maps.",
     files=["iceoryx_posh/source/roudi/memory/memory_provider.cpp", "iceoryx_posh/source/roudi/memory/roudi_memory_manager.cpp", "iceoryx_posh/source/roudi/memory/posix_shm_memory_provider.cpp", "iceoryx_posh/source/roudi/memory/mempool_collection_memory_block.cpp", "iceoryx_posh/source/roudi/memory/mempool_segment_manager_memory_block.cpp", "iceoryx_posh/source/roudi/memory/port_pool_memory_block.cpp", "iceoryx_posh/include/iceoryx_posh/internal/roudi/memory/generic_memory_block.inl", "iceoryx_posh/include/iceoryx_posh/roudi/memory/iceoryx_roudi_memory_manager.hpp"],
     mech=[("division", "MemoryProvider::create, BumpAllocator"), ("announcement", "MemoryProvider::announceMemoryAvailable, RouDiMemoryManager::createAndAnnounceMemory"), ("lifetimes", "the memory blocks, MemoryProvider::destroy, RouDiMemoryManager::destroyMemory, IceOryxRouDiMemoryManager")],
     technique="recurrence of the requested size on the IR, decision tables per outcome, element-wise loop coverage and construction/destruction typestate")

prop(id="P27", title="The C interface does what the C++ operation does, once, and says how it ended",
     statement="Every function of the C binding performs exactly its C++ operation on the given object with the given arguments, and its result and enumerators are the C++ outcome translated by name; options left alone have the documented defaults and options set arrive. Each object made is destroyed once, an attachment ends before the port behind it is handed back, and a handed-back port is not touched again. Arrays of a wait, take or search are filled within the capacity given, what does not fit is counted from zero, and strings are terminated.",
     over=["inputs", "histories", "programs"], forall="every C function, enumerator, option, capacity and string length",
     why="Tests call each function with a few values; a swapped enumerator, an off-by-one capacity or a port touched after it was handed back shows only for others or under a race with RouDi.",
     files=["iceoryx_binding_c/source/c_publisher.cpp", "iceoryx_binding_c/source/c_subscriber.cpp", "iceoryx_binding_c/source/c_client.cpp", "iceoryx_binding_c/source/c_server.cpp", "iceoryx_binding_c/source/c_wait_set.cpp", "iceoryx_binding_c/source/c_listener.cpp", "iceoryx_binding_c/source/c_service_discovery.cpp", "iceoryx_binding_c/source/c_runtime.cpp", "iceoryx_binding_c/source/c2cpp_enum_translation.cpp", "iceoryx_binding_c/source/cpp2c_enum_translation.cpp", "iceoryx_binding_c/source/cpp2c_subscriber.cpp", "iceoryx_binding_c/source/cpp2c_service_description_translation.cpp"],
     mech=[("forwarding", "iox_*_ functions of iceoryx_binding_c"), ("translation", "c2cpp::*, cpp2c::*, TranslateServiceDescription"), ("lifetimes", "iox_*_init, iox_*_deinit, cpp2c_Publisher, cpp2c_Subscriber"), ("arrays", "iox_ws_wait, iox_ws_timed_wait, iox_service_discovery_find_service")],
     technique="per-function decision tables on the IR against a table of C++ operations, enumerator maps by name, typestate of the ports, capacity guards")

prop(id="P28", title="RouDi runs with the configuration it was given, or not at all",
     statement="For every configuration file the TOML library can read, RouDi starts with exactly the segments, groups and pools written there, or, if the version is not supported, something required is missing, a limit is exceeded or the file cannot be opened, it reports that error and does not start; without a file it uses the built-in configuration. Every option of the command line, under its letter and its name, sets what it names to what was given and nothing else, also if a file is used, and an unknown option or invalid value keeps RouDi from starting. A configuration without segments, or with a segment without pools, is never run. All memory, channels and ports are created in the configured domain and under the configured RouDi identity. When RouDi ends, applications are asked to terminate only after the configured termination delay (or when none is left) and are killed only if still running after the configured kill delay, and never if they share RouDi's address space.",
     over=["inputs", "configurations"], forall="every configuration text, command line and number of segments and pools",
     why="Tests parse a handful of files and one option at a time; swapped keys, a limit off by one, pools carried over to the next segment or options lost once a file is used appear only for other files and combinations.",
     files=["iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp", "iceoryx_posh/source/roudi/roudi_cmd_line_parser.cpp", "iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp", "iceoryx_posh/source/roudi/application/roudi_main.cpp", "iceoryx_posh/source/roudi/application/roudi_app.cpp", "iceoryx_posh/source/roudi/application/iceoryx_roudi_app.cpp", "iceoryx_posh/source/roudi/roudi.cpp", "iceoryx_posh/source/roudi/memory/default_roudi_memory.cpp", "iceoryx_posh/source/roudi/memory/iceoryx_roudi_memory_manager.cpp"],
     mech=[("configuration file", "TomlRouDiConfigFileProvider::parse"), ("command line", "CmdLineParser::parse, CmdLineParserConfigFileOption::parse"), ("start", "main, RouDiApp::RouDiApp, IceOryxRouDiApp::run"), ("use", "RouDi::RouDi, RouDi::shutdown, DefaultRouDiMemory")],
     technique="provenance of every value taken over from the parsed file, per-element and per-option decision tables on the IR, announced options against handled ones")

# ------------------------------------------------------------------ out of reach for this family
prop(id="P90", title="Each history of concurrent queue operations has a sequential explanation",
     statement="For every interleaving of pushes, pops and resizes on one queue there is an order of the operations, consistent with real time, in which a sequential bounded queue gives the same results.",
     over=["schedules", "histories"], forall="every number of threads, every interleaving and memory order the hardware allows",
     why="Tests sample interleavings.",
     files=["iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue.hpp", "iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_resizeable_lockfree_queue.hpp"],
     mech=[("cyclic indices and compare-and-swap", "MpmcIndexQueue, MpmcLockFreeQueue")], technique="",
     na="Linearizability is a statement about all global interleavings; it needs a state-space search or a proof over them. P04, P05 and P06 decide the per-thread obligations such a proof would rest on (slot ownership, order of publication, reservation protocol, memory orders), not the global ordering itself.")

prop(id="P91", title="Delivery latency does not depend on payload size",
     statement="The time from sending a sample to its availability at the subscriber is bounded independently of the size of its payload.",
     over=["inputs", "schedules"], forall="every payload size and system load",
     why="Measurements sample sizes and loads.",
     files=["iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl"],
     mech=[("no copy of the payload", "chunks are passed by reference")], technique="",
     na="A bound on time is a runtime quantity of scheduler, caches and system. The static part, that no path of the data path copies, allocates, locks unasked or waits, is decided by P24 and P10.")

prop(id="P92", title="RouDi and applications recover within a bounded time after a crash",
     statement="A process that stops answering is found dead and its resources are available again after a bounded number of monitoring intervals; a restarted RouDi is found by waiting applications within their timeout.",
     over=["crash_points", "schedules"], forall="every crash point and every scheduling of the monitoring thread",
     why="Tests use a few intervals on an idle machine.",
     files=["iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_posh/source/runtime/ipc_runtime_interface.cpp"],
     mech=[("heartbeats", "ProcessManager::monitorProcesses"), ("registration with timeout", "IpcRuntimeInterface::create")], technique="",
     na="The bound depends on clock, scheduling and the duration of other work of the monitoring thread. What happens when the dead process is found (P16) and which answer ends the registration (P19) are decided.")

prop(id="P93", title="A crash inside a lock-free operation leaves shared structures usable",
     statement="If a process dies between any two instructions of a queue, free-list or history operation, the surviving processes can still use the structure and lose at most what the dead process was moving.",
     over=["crash_points"], forall="every instruction boundary of every operation on shared memory",
     why="Tests cannot stop a process between two chosen instructions.",
     files=["iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp", "iceoryx_posh/source/mepoo/mem_pool.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"],
     mech=[("write order of the used chunk list", "UsedChunkList"), ("reservation of indices", "MpmcLoFFLi, MpmcIndexQueue")], technique="",
     na="It relates the shared state after an arbitrary prefix of one process's instructions to all later operations of others, including the known loss of a slot whose index the dead process held in a register; no invariant short of a full state-space argument decides it. P07 decides the write order that makes the list of held chunks recoverable, P16 what recovery does with it.")
