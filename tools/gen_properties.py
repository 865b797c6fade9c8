#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe_at, hook_needed=hook)))
BUS = ["src/lamppost/bus/Bus.cpp", "include/lamppost/bus/Bus.h"]
SUB = ["src/lamppost/bus/Subscriber.cpp", "src/lamppost/bus/Publisher.cpp"]
ACT = ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", "include/lamppost/bus/Bus.h"]
PLG = ["src/lamppost/plugin/PluginManager.cpp", "src/lamppost/plugin/PluginTemplate.cpp", "src/lamppost/plugin/PluginInstance.cpp"]
LNK = ["src/plugins/link/Link.cpp", "src/plugins/link/Link.h"]
LP = ["src/lamppost/LampPost.cpp", "src/main.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp"]

prop("C01", "Each message reaches every matching subscriber exactly once",
  "While a bus runs, every message published on any bus of its tree is delivered exactly once to every subscriber, on any bus of that tree at any depth, whose topic equals the message's topic or which subscribed to the catch-all pattern \"/**/*\", and is delivered to no other subscriber. Messages published before the bus was started are delivered once it runs. Nothing is lost, duplicated or invented, however many threads publish at once and however many messages are waiting.",
  ["schedules", "inputs", "histories"],
  "all interleavings of publishing threads, the dispatching thread and threads that subscribe or unsubscribe; all bus-tree shapes, topics and queue lengths",
  "One test publishes one message from one thread to one subscriber on the same bus; no test has two publishers, two subscribers, a child bus or a full queue.",
  BUS + SUB + ["src/lamppost/utilities/AntMatcher.cpp"],
  [("queue under its own mutex, drained in batches", "Bus::Bus, Bus::Run"), ("recursive distribution over child buses", "Bus::Distribute"), ("topic match", "AntMatcher::Matches")],
  ["subscriber callbacks", "publish calls"],
  [("message queue", "messages accepted and not yet distributed", "Bus::mQueuedMessages")])

prop("C02", "All subscribers observe one common publish order",
  "All subscribers of a bus tree receive the messages they get in one common order. That order never contradicts real time: if one publish call returned before another began, on whatever thread or bus of the tree, the first message comes first for everybody. In particular each thread's messages arrive in the order in which it sent them.",
  ["schedules", "histories"],
  "all interleavings of publishers on all buses of a tree with the dispatching thread, across batch boundaries",
  "No test sends more than one message.",
  BUS, [("one queue per bus tree, appended under a mutex, drained front to back by one thread", "Bus::Bus, Bus::Run")],
  ["subscriber callbacks", "publish calls"])

prop("C03", "Delivered messages are faithful and independent copies",
  "What a subscriber receives equals what was published at the moment of the publish call: the same topic, the name of the bus it was published on as sender, and the same content down to every nested element. Changes the publisher makes to its datagram afterwards, and changes another subscriber makes to the copy it received, are never visible to a subscriber.",
  ["schedules", "inputs"],
  "all datagram contents and nestings, all interleavings of delivery with modification of the original by the publisher and of received copies by other subscribers",
  "Tests compare one string after delivery to a single subscriber and never modify a datagram after publishing or inside a callback.",
  BUS + SUB + ["src/lamppost/messages/Message.cpp", "src/lamppost/messages/Datagram.cpp", "src/lamppost/messages/RawDatagram.cpp"],
  [("messages and datagrams are copied deeply at each hand-over", "Datagram copy constructor, RawDatagram::Copy"), ("sender is set to the publishing bus", "Bus::Publish")],
  ["subscriber callbacks"])

prop("C04", "A published message is delivered within one polling period",
  "While a bus runs and its callbacks return, every message whose publish call has returned is delivered within 100 milliseconds, whatever wake-ups are lost, late or spurious. This keeps holding after bursts, pauses, allocation failures in publishing threads, and publishes made from inside callbacks.",
  ["schedules", "fault_sequences"],
  "all interleavings of the publisher's enqueue-and-wake with the dispatcher's check-and-sleep, with spurious wake-ups, thread stalls and failing allocations",
  "A test waits 100 ms for one message and is known to fail on several CPUs when the wake-up is lost; it fixes no bound and samples one interleaving.",
  BUS, [("timed wait with a 100 ms polling fallback, predicate over queue and stop flag", "Bus::Run"), ("notification after enqueue", "Bus::Bus")],
  ["time of publish return", "time of callback"])

prop("C05", "Unsubscribing is a barrier; deleted publishers are mute",
  "Once deleting a subscriber from a bus has returned, that subscriber's callback is not running and never runs again, and every other subscriber still receives everything. Once deleting a publisher has returned, publishing through it has no effect. Membership queries report an endpoint as present exactly from its creation until its deletion.",
  ["schedules", "histories"],
  "all interleavings of creation, deletion and queries with publishing and with deliveries in progress",
  "Tests delete endpoints of an idle bus from a single thread.",
  BUS + SUB, [("endpoint lists guarded by mutexes that delivery also holds", "Bus::DeleteManagedResource, Bus::Distribute"), ("callback cleared on deletion", "Subscriber::Reset, Publisher::Reset")],
  ["subscriber callbacks", "delete calls", "contains queries"])

prop("C06", "A stop request always stops the bus, promptly",
  "A stop request made from any thread at any moment, including before the bus has begun to run, makes the call that runs the bus return within 100 milliseconds once the callback in progress returns, and no callback runs after it has returned. Publishing on a stopped bus neither blocks nor fails, and messages published while it was stopped are delivered, exactly once and in order, when it is run again.",
  ["schedules", "histories"],
  "all interleavings of stop requests with starting, waiting, distributing and publishing; repeated start and stop",
  "Tests stop a bus once, 100 ms after it was started, from one thread.",
  BUS, [("run flag checked by the dispatch loop and before each distribution", "Bus::Start, Bus::Run, Bus::Stop, Bus::Distribute")],
  ["return of the running call", "subscriber callbacks"])

prop("C07", "The bus API is safe under concurrent use and failing allocations",
  "Any mix of creating, deleting and querying publishers and subscribers, creating action endpoints and child buses, publishing, requesting and responding, carried out by any number of threads while the bus runs, is free of data races, accesses to dead memory, deadlocks and crashes. When a memory allocation fails inside such a call, at most that call fails: the bus stays usable and no other message is lost or duplicated.",
  ["schedules", "fault_sequences"],
  "all interleavings, at the granularity of single memory accesses, of all operations of the bus API; allocation failure at any allocation of a client thread",
  "Tests use at most two threads, never while endpoints change, and never run out of memory.",
  BUS + SUB + ACT[:2], [("one mutex per endpoint list, queue and child map", "include/lamppost/bus/Bus.h"), ("scoped locks", "Bus.cpp")],
  ["memory accesses", "locks", "exceptions"])

prop("C08", "Each response reaches exactly the request it answers",
  "For every request an action consumer makes, each provider on that topic is invoked once with that request's payload, and the consumer's callback (or the synchronous call) gets a response that a provider gave to that very request, at most once however many responses are sent, and exactly once if one is sent while the bus runs. Requests of other consumers or threads on the same topic, made at the same instant or answered in any order, never receive it.",
  ["schedules", "histories"],
  "all interleavings of concurrent requests of many consumers and threads, with immediate, deferred, reordered, duplicate and missing responses from several providers",
  "Tests make one request at a time with one consumer and one provider that answers immediately.",
  ACT + ["include/lamppost/utilities/Uuid.h"], [("random invocation identifier per request, registered before publishing", "ActionConsumer::RequestAsync"), ("lookup and removal on response", "ActionConsumer::ProcessResponse")],
  ["request calls", "provider callbacks", "response callbacks"],
  [("open requests", "requests waiting for their response", "ActionConsumer::mOpenRequests")])

prop("C09", "A synchronous request returns its response or times out cleanly",
  "A synchronous request returns the response as soon as that response is delivered, and otherwise returns an empty datagram when its timeout has elapsed, neither sooner nor later. A response that arrives after the timeout, at the very moment of the timeout, or a second time is discarded without touching the caller's state or disturbing any other request.",
  ["schedules", "fault_sequences"],
  "all timings of the response relative to the timeout, including ties, all preemptions of caller and dispatcher, spurious wake-ups and stalls",
  "Tests cover an immediate response and no response at all; no test has a late one or a race with the timeout.",
  ACT, [("condition variable wait with timeout", "ActionConsumer::Request"), ("callback that stores the response and wakes the caller", "ActionConsumer::Request")],
  ["return value and time of request calls", "memory accesses after return"])

prop("C10", "Malformed action traffic is ignored",
  "A message of any shape that arrives on an action's request or response topic without a usable invocation identifier, or with one that is unknown or already answered, is ignored: no callback is invoked for it, and the bus keeps running. Proper requests and responses before, between and after such messages are served as if it had not been sent.",
  ["inputs", "histories", "schedules"],
  "all datagram shapes on the request and response topics, interleaved with proper traffic from other threads",
  "Tests only ever send well-formed requests.",
  ACT, [("extraction of the invocation identifier", "Bus::CreateActionProvider, Bus::CreateActionConsumer")],
  ["bus thread stays alive", "provider and consumer callbacks"])

prop("C11", "Child bus names are unique and resolve consistently",
  "Among concurrent attempts to create a child bus of the same name under one parent exactly one succeeds and every other one is refused with a duplicate-key error that leaves the existing child untouched. Looking a name up returns that one child from the moment its creation returned, and fails with a key-not-found error for names never created. A child takes part in delivery, in both directions, from the moment its creation returned, even while the bus is distributing messages.",
  ["schedules", "histories"],
  "all interleavings of create and lookup on the same parent with each other and with publishing and distribution",
  "Tests create and look up children sequentially on a bus that does not run.",
  BUS, [("child map guarded by a mutex held over check, insert and start", "Bus::CreateChildBus, Bus::GetChildBus")],
  ["create and lookup calls", "subscriber callbacks"])

prop("C12", "Detaching or destroying a bus disconnects its whole subtree",
  "Once detaching a bus has returned, or its parent has been destroyed, publishing on it or on any bus below it, through any surviving handle, has no effect, never fails and touches no dead memory. A publish that runs concurrently with the detach is either delivered normally or dropped as a whole. Buses outside the detached subtree are not affected.",
  ["schedules", "histories"],
  "all interleavings of publishing threads with detach, destruction orders of parents and surviving children",
  "No test detaches a bus, and none destroys a bus that still has users.",
  BUS, [("publish function cleared recursively", "Bus::Detach, Bus::~Bus"), ("children stopped", "Bus::Detach")],
  ["publish calls", "subscriber callbacks"])

prop("C13", "Linked nodes receive each other's messages exactly once",
  "When a server node and its client nodes are connected, every message published on one node (that did not itself arrive over that link) is delivered exactly once on every directly connected node, with the same topic and identical content and with the receiving link's name prepended to its sender, in the order sent. It is never sent back to where it came from. When the network drops connections or loses messages, each message is still delivered at most once, unaltered and in order, and delivery resumes by itself after the connection heals.",
  ["schedules", "fault_sequences", "inputs"],
  "all message contents, network delays, interleavings of the nodes, connection losses, partitions, heals and node restarts",
  "No test loads the link plugin.",
  LNK + ["src/lamppost/messages/Message.cpp", "src/lamppost/messages/RawDatagram.cpp", "src/lamppost/data/RawBytes.cpp"],
  [("catch-all subscriber forwards to the publish sockets", "Link::Initialize"), ("receive loop republishes on the bus", "Link::Run"), ("sender prefix marks and filters received messages", "Message::PrependSender, Message::WasSentBySender")],
  ["bus subscribers on every node", "network traffic"])

prop("C14", "Hostile or damaged network input cannot harm a node",
  "Whatever bytes and frames arrive on a node's link sockets (truncated, altered, empty, random, or split differently from what nodes send), the node neither crashes nor reads outside the received bytes nor stops, and nothing that is not a complete well-formed message is put on its bus. Proper messages arriving before and after are delivered normally.",
  ["inputs", "fault_sequences"],
  "all byte strings and frame sequences received from the network, interleaved with proper traffic",
  "No test deserialises anything but a message it has just serialised.",
  LNK + ["src/lamppost/messages/Message.cpp", "src/lamppost/messages/RawDatagram.cpp", "src/plugins/sysinfo/SysInfo.cpp"],
  [("reassembly of the frames", "Link::ReceiveMessage"), ("deserialisation", "Message::Deserialize, RawDatagram::DeserializeFromStructure")],
  ["process survival", "memory accesses", "bus subscribers"])

prop("C15", "A link uses and releases its sockets safely",
  "A link never uses one network socket from two threads at the same time, and never uses a socket or context after it was closed. By the time a node has shut down every socket it opened is closed exactly once and its context is terminated exactly once, afterwards. Shutdown completes whatever traffic, connection losses, failing socket creation, binding or sending happen meanwhile.",
  ["schedules", "fault_sequences"],
  "all interleavings of the forwarding, receiving and shutting-down threads; failures of every network library call; shutdown at any moment",
  "No test loads the link plugin.",
  LNK, [("one mutex per socket, all taken for shutdown", "Link::Deinitialize"), ("subscriber deleted first", "Link::Deinitialize")],
  ["network library calls"])

prop("C16", "Plugins are run and torn down in order",
  "For every plugin instance: it is initialised completely before its worker runs, the worker runs on a thread of its own, and on shutdown the worker is told to stop and has finished before the instance is deinitialised, which happens exactly once, before the instance is destroyed, before its library is closed. This holds for every instance, including ones whose worker ended by itself, whose creation or initialisation failed part-way through start-up, or that were only just started when the stop request came.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of workers, dispatcher and shutdown; failure of any plugin's creation or initialisation; all plugin sets",
  "No test loads a plugin.",
  PLG + LP[:1], [("stop joins the worker", "PluginInstance::Stop"), ("stop, deinitialise, drop, then close", "PluginTemplate::Unload, PluginManager::UnloadTemplates"), ("initialise before start", "LampPost::InstantiatePlugin")],
  ["calls into plugins", "library open and close calls"])

prop("C17", "Unusable plugin libraries are skipped; library handles balance",
  "A plugin library that cannot be opened, lacks an entry point, or describes itself with no or an empty identifier is skipped without affecting any other library, in whatever order they are found and in whichever search path. Every library opened is closed exactly once: at once if it was not usable, and otherwise on shutdown, also when the same identifier or the same file is found several times.",
  ["fault_sequences", "configurations"],
  "all directory contents and orders, duplicate search paths and identifiers, failures of directory reading, opening and symbol lookup at any point",
  "No test loads a plugin library.",
  PLG[:1] + ["src/lamppost/Filesystem.cpp"], [("checks and close on each failing path", "PluginManager::LoadTemplate"), ("handle kept with its template", "PluginManager::UnloadTemplates")],
  ["library open, lookup and close calls", "instantiable plugin types"])

prop("C18", "The configuration starts exactly the plugins it lists",
  "On start, every plugin entry of every configuration file is started once, in the order listed, with a fresh identifier (its type followed by the lowest free number), a bus of its own named after that identifier, and precisely the configuration given in its entry. Entries of unknown type, entries without a type and plugins that fail to instantiate are skipped and do not stop the others. A configuration file that is missing, unreadable or cut off starts nothing from that file and does not stop the others; slow, short or interrupted reads change nothing.",
  ["configurations", "fault_sequences", "inputs"],
  "all configuration files, failures and short or interrupted reads at any byte, failing plugin types at any position",
  "Tests only construct configuration objects; none starts the application.",
  LP[:1] + PLG[:2] + ["src/lamppost/messages/RawDatagram.cpp"], [("iteration over the plugin entries, failures caught per entry", "LampPost::ReadConfigurationFile"), ("numbering", "PluginTemplate::Instantiate")],
  ["plugin instances created", "their configuration, identifier and bus"])

prop("C19", "A termination signal at any time leads to an orderly shutdown",
  "From the moment the program has installed its signal handlers, an interrupt or termination signal delivered to any thread at any instant, once or repeatedly, makes the program stop all plugins in order and exit successfully, within 100 milliseconds plus the time the plugins need to finish. It never deadlocks, crashes or is forgotten, whether it arrives during start-up, while running or during shutdown. The application reports itself stopped exactly when it has stopped.",
  ["schedules", "fault_sequences"],
  "all instants and threads of delivery, repeated signals, at the granularity of single memory accesses and inside lock and allocation operations",
  "No test runs the program or sends a signal.",
  LP + ["src/lamppost/bus/Bus.cpp"], [("handler forwards to the stop request", "HandleShutdownSignal, LampPost::Stop"), ("start-up, run, teardown sequence", "LampPost::Start, LampPost::Teardown")],
  ["exit of the program", "calls into plugins", "stopped query"])

prop("C20", "Log lines are written whole",
  "Every log call writes exactly one line, consisting of the component's prefix in brackets, the indentation and the message, and lines written by different threads or components never mix, tear or get lost. Each thread's lines appear in the order in which it logged them. A failing output stream never makes a log call fail or block.",
  ["schedules", "fault_sequences"],
  "all interleavings of logging threads inside the output operations; output errors at any write",
  "No test looks at the log.",
  ["src/lamppost/log/Log.cpp"], [("process-wide mutex around each line", "Log::WriteSynchronized")],
  ["bytes written to standard output"])

prop("C21", "Directory listings are exact and leak nothing",
  "Listing a directory returns the name of each entry of the requested kind (regular files, directories, or both) exactly once and no other name, apart from entries that come or go during the listing. A directory that is missing or cannot be read gives an empty or shortened list, never a failure or a wrong name, and every directory handle opened is closed exactly once. Existence and kind queries, the working directory and the executable's path are reported correctly or as absent or empty when the system cannot tell.",
  ["fault_sequences", "schedules", "inputs"],
  "all directory contents, changes of the tree between any two system calls, failure of any system call",
  "No test covers the file system helpers.",
  ["src/lamppost/Filesystem.cpp"], [("readdir loop with kind filter", "Filesystem::GetDirectoryContents"), ("stat/access wrappers", "Filesystem.cpp")],
  ["returned names", "system calls made"])

prop("C22", "Serialised messages deserialise to an equal message",
  "For every message built from the supported value types, serialising it to bytes and deserialising the bytes yields a message with equal sender, topic and content.",
  ["inputs"], "all messages", "One test round-trips one message.",
  ["src/lamppost/messages/Message.cpp", "src/lamppost/messages/RawDatagram.cpp", "schemas/FBDatagram.fbs", "schemas/FBMessage.fbs"],
  [("flatbuffers encoding", "RawDatagram::SerializeToStructure, RawDatagram::DeserializeFromStructure")], ["deserialised message"])
prop("C23", "Datagrams behave as nested values",
  "Copying a datagram yields an equal and fully independent value; equality holds exactly for the same structure and contents; typed reads return the stored value of exactly that type and fail otherwise; path reads return the addressed value or the given default.",
  ["inputs", "histories"], "all datagrams and operation sequences", "Tests sample a dozen datagrams.",
  ["src/lamppost/messages/RawDatagram.cpp", "src/lamppost/messages/Datagram.cpp", "include/lamppost/messages/RawDatagram.h"],
  [("tagged union of dictionary, list and value", "RawDatagram")], ["datagram operations"])
prop("C24", "JSON text converts to the datagram it denotes",
  "Parsing a JSON text yields the datagram with the same structure and values, and an empty datagram if the text is not valid JSON.",
  ["inputs"], "all JSON texts", "Tests parse one dictionary with one integer.",
  ["src/lamppost/messages/RawDatagram.cpp"], [("recursive conversion", "RawDatagram::ParseJsonObject")], ["parsed datagram"])
prop("C25", "Path helpers split and join paths consistently",
  "Joining a directory and a name and splitting the result gives back the directory and the name; the extension is what follows the last dot of the file name.",
  ["inputs"], "all paths", "No test covers them.",
  ["src/lamppost/Filesystem.cpp"], [("find_last_of", "Filesystem::GetFilename and neighbours")], ["returned strings"])

prop("C26", "Memory is given back",
  "Traffic leaves nothing behind: once a batch of it has come to rest (messages distributed, asynchronous requests answered, synchronous ones returned, endpoints it created deleted), a tree of buses holds no more memory than after an identical earlier batch. That is so whatever the traffic was: topics without subscribers, endpoints deleted while their messages wait, malformed, repeated, late or unknown action messages, requests that timed out, unreadable bytes, JSON texts, refused calls, calls that ran out of memory, stopped and restarted buses, and messages arriving or leaving through network links. After the last handles to buses, publishers and subscribers are let go of, in any order and with messages still waiting, everything allocated for them and their messages is released.",
  ["schedules", "fault_sequences", "histories"],
  "all traffic, interleavings, orders of deletion and failing allocations",
  "No test looks at memory, and short programs end before growth shows.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", "src/lamppost/messages/RawDatagram.cpp", "src/plugins/link/Link.cpp"],
  [("message queue, endpoint lists and the functions held by endpoints", "Bus::Publish, Bus::Start, Bus::DeleteSubscriber, Bus::DeletePublisher"), ("open requests", "ActionConsumer::SendRequest, ActionConsumer::Request, ActionConsumer::ProcessResponse"), ("parser and parsed objects", "RawDatagram::DeserializeFromJson")],
  ["allocations still held", "JSON parser objects still held"])
prop("C27", "The shipped setup of two hosts works end to end",
  "Two hosts started with the shipped server and client configurations (or ones that differ in how many SysInfo plugins they list and whether these are to send), in any order and any time apart, form one system. A SysInfo plugin configured to send publishes the text 'Hello Bus!' on /sysinfo when its host starts and from then on every two seconds (give or take the bus' 100 ms) until the host is stopped; one that is not configured to send publishes nothing there. While both hosts are connected each of these messages is also seen exactly once, unaltered and promptly, on the other host, as 'Link0/' followed by its sender; nobody ever sees one that was not sent, and nothing comes back to the host it came from. A request on /sysinfoaction made on a host that runs SysInfo, or whose connected neighbour does, is answered with 'This is the response message.'. Broken connections and stopping or restarting one host disturb the other one only as long as they last. A host that is stopped ends once its plugins are done, and after both have ended no thread, socket or plugin library is left.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all start orders, interleavings, network faults and restarts",
  "The tests never load the shipped plugins into a host, never read the shipped configurations and never connect two hosts.",
  ["config/default_server.cfg", "config/default_client.cfg", "src/plugins/sysinfo/SysInfo.cpp", "src/plugins/link/Link.cpp", "src/lamppost/LampPost.cpp", "src/lamppost/plugin/PluginManager.cpp"],
  [("periodic publishing and the action provider", "SysInfo::Run, SysInfo::Initialize"), ("polling loop and forwarding callback", "Link::Run, Link::Initialize"), ("configuration driven start and teardown", "LampPost::Start, LampPost::Teardown")],
  ["messages on /sysinfo of either host", "responses on /sysinfoaction", "what is left after the end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
