import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F="lib/Framework/"; I="include/Pothos/Framework/"; U="include/Pothos/Util/"
p("C01","Stream elements arrive exactly once, in order and unmodified",
"Every element a block produces on a streaming output reaches every input connected to that output exactly once, in production order and with the bytes that were produced. This holds for any graph shape (chains, fan-out, fan-in to separate ports, nested and pass-through topologies), chunk size, reserve setting, in-place processing, buffer manager and thread pool.",
["schedules","configurations","inputs"],"every interleaving of the worker threads, every graph/pool/buffer configuration and every production/consumption chunking",
"The topology self-tests run a handful of graphs once, under whatever schedule the host happens to give; a lost, repeated or overwritten chunk needs a specific interleaving of producer, consumer and buffer return.",
[F+"WorkerActor.cpp",F+"InputPort.cpp",F+"OutputPort.cpp",F+"BufferAccumulator.cpp",F+"Builtin/GenericBufferManager.cpp",F+"Builtin/CircularBufferManager.cpp",I+"InputPortImpl.hpp",I+"OutputPortImpl.hpp"],
[("pre/post work port accounting","lib/Framework/WorkerActor.cpp preWorkTasks/postWorkTasks"),("input accumulation under a spin lock","lib/Framework/InputPort.cpp bufferLabelPush, bufferAccumulatorPop"),("contiguous buffer accumulation and amalgamation","lib/Framework/BufferAccumulator.cpp")],
"the element values seen by sink blocks through their input ports")
p("C02","Stream labels stay attached to their element",
"A label posted on an element of a stream is seen exactly once by every connected input, attached to that same element (re-scaled when element sizes differ) with the same identifier and data, in element order. This holds however the stream is split into buffers and however consumption interleaves with production.",
["schedules","inputs","configurations"],"every interleaving of posting, buffering and consumption, every chunking and every label placement",
"Existing label tests post a few labels in one thread-friendly pattern; alignment depends on how many bytes are queued at the instant a chunk arrives.",
[F+"InputPort.cpp",F+"WorkerActor.cpp",I+"InputPortImpl.hpp",F+"Label.cpp",F+"Block.cpp"],
[("labels queued with byte offsets, converted to element offsets on the consumer side","lib/Framework/InputPort.cpp bufferLabelPush; include/Pothos/Framework/InputPortImpl.hpp bufferAccumulatorFront"),("label shift and propagation","lib/Framework/WorkerActor.cpp postWorkTasks; lib/Framework/Block.cpp propagateLabels")],
"labels and absolute element offsets recorded by sink blocks")
p("C03","Port messages are delivered once, in order, with back-pressure",
"Each message posted on an output port is received exactly once by every connected input, and messages from one output arrive in posting order with their contents intact. A sender can run only a bounded number of messages ahead of its slowest receiver and is resumed once messages are taken; packets keep their payload, metadata and labels.",
["schedules","configurations","inputs"],"every interleaving of senders, receivers and the return of message resources",
"Tests post a few messages and wait; dropping, duplicating or reordering, and stalling when message resources run out, depend on the interleaving of post, pop and resource return.",
[F+"InputPort.cpp",F+"OutputPort.cpp",I+"InputPortImpl.hpp",I+"OutputPortImpl.hpp",F+"WorkerActor.cpp",U+"RingDeque.hpp"],
[("message queue and tokens","lib/Framework/InputPort.cpp asyncMessagesPush; lib/Framework/OutputPort.cpp _postMessage, tokenManagerInit")],
"messages popped by receiving blocks; number of messages outstanding per output")
p("C04","Signals invoke every connected slot once per emission, in order",
"Each emission of a signal invokes each connected slot (and each probe) exactly once, with the emitted arguments and in emission order, in the receiving block's own context. A slot that throws neither loses nor repeats other invocations.",
["schedules","configurations","inputs"],"every interleaving of emitting blocks, receiving blocks and direct calls, with slots that throw at arbitrary points",
"Signal/slot tests emit a few times and check the last value; loss and duplication depend on scheduling of queued calls.",
[F+"WorkerActor.cpp",F+"InputPort.cpp",F+"OutputPort.cpp",F+"Block.cpp"],
[("slot call queue","lib/Framework/InputPort.cpp slotCallsPush/slotCallsPop; lib/Framework/WorkerActor.cpp handleSlotCalls")],
"slot invocations recorded by receiving blocks")
p("C05","Code of one block never runs concurrently with itself",
"A block's work, slot, activation and externally called methods never overlap in time, and each sees all effects of the ones before it, so block state needs no locks of its own. Every external call runs exactly once and returns its own result or exception, even while the block is busy.",
["schedules","configurations"],"every interleaving of worker threads and any number of external callers, in both own-thread and shared-pool execution",
"Overlap or a missing happens-before edge between two callbacks is a race that ordinary test runs almost never hit.",
[F+"ActorInterface.hpp",F+"WorkerActor.cpp",F+"WorkerActor.hpp",F+"Block.cpp",F+"ThreadEnvironment.cpp"],
[("exclusive access to the actor","lib/Framework/ActorInterface.hpp"),("method dispatch into the block","lib/Framework/Block.cpp opaqueCallMethod")],
"entry and exit of every user callback; happens-before between consecutive callbacks")
p("C06","Activation life cycle of blocks",
"A block's work runs only between a successful activation and the following deactivation, activation and deactivation strictly alternate, and a block that became part of a committed design is activated before the commit returns. A block whose connections are all removed is deactivated by that commit, and no callback of it runs after the commit returns unless it is called directly.",
["schedules","histories"],"every sequence of connect/disconnect/commit operations interleaved with running workers",
"Tests check a fixed connect/commit/disconnect script once; late work after deactivation is a narrow race.",
[F+"TopologyCommit.cpp",F+"WorkerActor.cpp",F+"Topology.cpp"],
[("activation on commit","lib/Framework/TopologyCommit.cpp topologySubCommit; lib/Framework/WorkerActor.cpp setActiveStateOn/Off, workTask")],
"activate/work/deactivate events recorded by blocks against the commit history")
p("C07","A buffer is never reused while someone still holds it",
"Memory handed to a producer as an output buffer is never at the same time readable through a buffer still held by any consumer, queue or user reference, even when references are released late and out of order. Every buffer becomes available again after its last reference is dropped, and a producer never holds more than its configured number of buffers in flight.",
["schedules","configurations","histories"],"every interleaving of production, fan-out consumption and out-of-order late release of buffers",
"Tests release buffers promptly and in order in one thread; premature reuse shows only when a slow consumer races with the buffer's return.",
[F+"ManagedBuffer.cpp",I+"ManagedBuffer.hpp",F+"Builtin/GenericBufferManager.cpp",F+"Builtin/CircularBufferManager.cpp",U+"OrderedQueue.hpp",F+"OutputPort.cpp",F+"BufferPool.cpp",F+"WorkerActor.cpp"],
[("reference counted return to the manager","include/Pothos/Framework/ManagedBuffer.hpp; lib/Framework/OutputPort.cpp bufferManagerPush"),("ordered reuse","include/Pothos/Util/OrderedQueue.hpp"),("in-place optimisation","lib/Framework/WorkerActor.cpp preWorkTasks")],
"contents of retained buffers over time; count of distinct in-flight buffers")
p("C08","Work that can run does run: no lost wake-ups or stalls",
"While a block is active and has the input, messages, slot calls or freed output space it needs, its work or slot is called within a bounded time, for every thread pool size (including fewer threads than blocks) and wait policy. A finite workload through any acyclic graph therefore always drains completely.",
["schedules","configurations"],"every interleaving of wake-up notification against going to sleep, every pool size and yield policy, with threads stalled arbitrarily",
"A lost wake-up needs the notification to fall in a window of a few instructions; tests only show that typical runs finish.",
[F+"ActorInterface.hpp",F+"ThreadEnvironment.cpp",F+"WorkerActor.cpp",F+"WorkerActor.hpp"],
[("change flag and condition variable","lib/Framework/ActorInterface.hpp flagExternalChange, workerThreadAcquire"),("pool loop wake-up rules","lib/Framework/ThreadEnvironment.cpp poolProcessLoop")],
"completion of finite workloads within a bounded number of simulated steps and simulated time")
p("C09","Waiting for inactivity tells the truth",
"Waiting for a design to become inactive reports success only if no block consumed, produced or handled a slot call during the requested idle period, so a design that keeps making progress is never reported idle. With a timeout it reports failure once the timeout has passed and never much later, and on a design that has finished it succeeds.",
["schedules","inputs"],"every idle duration and timeout, every interleaving of polling with block activity",
"Tests use it only as a barrier on workloads much faster than the idle time.",
[F+"Topology.cpp",F+"WorkerActor.cpp"],
[("activity polling","lib/Framework/Topology.cpp waitInactive; lib/Framework/WorkerActor.hpp queryActivityIndicator")],
"return value and return time against the recorded activity history in simulated time")
p("C10","Thread pools bound concurrency and can be shared and replaced live",
"Blocks sharing a thread pool never run on more threads at once than the pool was configured with, and every block of the pool keeps running. Moving a block to another pool or releasing a pool while blocks run never loses, repeats or overlaps work, and once the move or a block's destruction returns, the old pool never runs that block again.",
["schedules","configurations","histories"],"every pool configuration, every sequence of pool changes interleaved with running blocks",
"The thread pool test only builds pools and runs one graph; registration and unregistration races are schedule dependent.",
[F+"ThreadEnvironment.cpp",F+"ThreadPool.cpp",F+"Block.cpp",F+"WorkerActor.hpp"],
[("task registration and signature","lib/Framework/ThreadEnvironment.cpp registerTask/unregisterTask"),("pool switch","lib/Framework/Block.cpp setThreadPool")],
"which simulated thread runs each callback, over time")
p("C11","Reconfiguring a running design leaves other flows untouched",
"While a design runs, connecting, disconnecting and committing changes takes effect without losing, repeating or corrupting any data on connections that exist both before and after the commit. A newly added connection receives a gap-free, in-order suffix of the stream, and a removed one received a gap-free prefix.",
["schedules","histories"],"every sequence of topology edits interleaved at any point with running blocks",
"Tests reconfigure a stopped or idle design; live edits race with running workers.",
[F+"TopologyCommit.cpp",F+"Topology.cpp",F+"TopologySquashFlows.cpp",F+"WorkerActor.cpp",F+"PortsAndFlows.hpp"],
[("difference of old and new flows","lib/Framework/TopologyCommit.cpp topologySubCommit, updateFlows, installBufferManagers"),("hierarchy flattening","lib/Framework/TopologySquashFlows.cpp, completePassThroughFlows")],
"element sequences seen by each sink before and after each commit")
p("C12","A failed commit is reported and recoverable",
"When a block refuses activation, fails to deactivate, or a connection cannot be made, the commit reports an error naming the failing block, a block that refused activation never runs, a block whose deactivation failed stays stopped, and all other blocks still work. The same design can then be edited, committed again and torn down normally, with the repaired block activated by the retry once the faulty connection is re-made.",
["fault_sequences","schedules","histories"],"every subset of blocks failing on any activation or deactivation, interleaved with running workers and repeated commits",
"No existing test makes activation fail.",
[F+"TopologyCommit.cpp",F+"WorkerActor.cpp",F+"Topology.cpp"],
[("error collection over asynchronous activations","lib/Framework/TopologyCommit.cpp collectFutureInfoErrors, topologySubCommit; lib/Framework/WorkerActor.cpp setActiveStateOn")],
"exceptions from commit and subsequent behaviour of the design")
p("C13","Teardown is safe in any state",
"Destroying blocks, topologies, thread pools, message references and buffers in any legal order, while workers are running and data is in flight, always terminates and never touches freed memory. Afterwards all buffers, messages, blocks and worker threads that belonged to the design are released exactly once.",
["schedules","histories","configurations"],"every destruction order and every instant of a running design",
"Test graphs are drained before they are destroyed in one fixed order; use-after-free windows need a particular interleaving.",
[F+"Block.cpp",F+"WorkerActor.hpp",F+"ThreadEnvironment.cpp",F+"OutputPort.cpp",F+"Topology.cpp",F+"ManagedBuffer.cpp"],
[("block destruction and unregistration","lib/Framework/Block.cpp; lib/Framework/ThreadEnvironment.cpp unregisterTask"),("buffer return callback into the port","lib/Framework/OutputPort.cpp bufferManagerSetup")],
"heap state (use after free, double free), live object counts and live threads after teardown")
p("C14","Concurrent remote calls each get their own result",
"Calls made from several threads over one remote connection each return the result (or exception) of exactly their own call, whatever order replies arrive in and however the transport fragments or delays bytes. Values passed to and from the remote side arrive unchanged, and a remote exception does not disturb other calls or the connection.",
["schedules","inputs","fault_sequences"],"every interleaving of caller threads and server handling, every fragmentation and delay of the byte streams",
"Remote tests make calls from one thread over a fast loopback connection.",
["lib/Remote/RemoteProxy.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Remote/RemoteProxyHandle.cpp","lib/Remote/ServerHandler.cpp"],
[("request/reply matching by transaction id","lib/Remote/RemoteProxy.cpp transact")],
"results of remote calls compared with a local reference model")
p("C15","Losing a remote connection fails calls instead of hanging them",
"When the transport to a remote environment breaks or is cut at any byte, every call in progress and every later call ends with an exception within bounded time; no call hangs and none returns a value the remote side did not send for it. Releasing handles of a dead connection is harmless.",
["crash_points","schedules","fault_sequences"],"a cut, write error or server crash at every byte of either direction, against any number of concurrent callers",
"No existing test breaks a connection while calls are in flight.",
["lib/Remote/RemoteProxy.cpp","lib/Remote/RemoteProxyHandle.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Remote/ServerHandler.cpp"],
[("receive failure handling and waking of other callers","lib/Remote/RemoteProxy.cpp transact")],
"outcome of every remote call after the fault")
p("C16","The remote server executes each request once and survives bad peers",
"The server side performs each well-formed request exactly once and answers it on the same connection. A truncated, malformed or unknown request ends at most that connection: it never corrupts other sessions, blocks their progress or crashes the server.",
["inputs","fault_sequences","schedules"],"every corruption, truncation or disconnect of the request stream, with several sessions at once",
"Tests only speak the protocol correctly through the client library.",
["lib/Remote/ServerHandler.cpp","lib/Remote/RemoteProxyDatagram.cpp","lib/Archive/StreamArchiver.cpp"],
[("request decoding and dispatch","lib/Remote/ServerHandler.cpp runHandler, runHandlerOnce; lib/Remote/RemoteProxyDatagram.cpp")],
"side effects counted on server objects, replies and liveness of other sessions")
p("C17","Remote references keep remote objects alive exactly as long as needed",
"An object on the remote side stays alive and usable while any client reference to it exists, in any thread, and is released exactly once after the last reference is dropped. This holds under concurrent copying, releasing and passing of references as arguments, and all objects a client held are released once its connection is lost and its session has ended.",
["schedules","histories"],"every interleaving of creation, copy, use and release of references by concurrent threads",
"Tests hold a single reference in one thread and never count remote releases.",
["lib/Remote/RemoteProxyHandle.cpp","lib/Remote/ServerHandler.cpp","lib/Remote/RemoteProxy.cpp"],
[("object table on the server and release message of the handle","lib/Remote/ServerHandler.cpp; lib/Remote/RemoteProxyHandle.cpp")],
"construction and destruction counts of server-side objects")
p("C18","The plugin registry is atomic under concurrent use",
"Registering, removing, looking up and listing plugins from concurrent threads behaves as if the operations happened one at a time in some order consistent with real time. Lookups never crash, never disturb the tree and never miss a plugin that stays registered throughout, and duplicates and unknown removals are refused.",
["schedules","histories"],"every interleaving of add, remove, get, exists, empty, list and dump by concurrent threads",
"The registry test is single threaded.",
["lib/Plugin/Registry.cpp","lib/Plugin/Path.cpp","lib/Plugin/Plugin.cpp"],
[("tree guarded by a reader/writer spin lock","lib/Plugin/Registry.cpp")],
"results of registry operations checked for linearizability against a sequential map")
p("C19","Plugin load and unload events reach the right handlers once",
"Adding or removing a plugin notifies every handler installed above it in the tree exactly once, with the right plugin and event, before the call returns; a refused operation notifies nobody. Installing a handler replays the plugins already present, exactly once for those settled and at least once for those added meanwhile, and a removed handler is not called again. A handler that throws breaks neither the operation, nor other handlers, nor later operations.",
["schedules","histories","fault_sequences"],"every interleaving of handler installation with additions and removals, with handlers that throw",
"Tests register one handler single-threaded.",
["lib/Plugin/Registry.cpp","include/Pothos/Plugin/Registry.hpp"],
[("call registration and event dispatch","lib/Plugin/Registry.cpp handlePluginEvent, addCall, loadPluginPath")],
"events recorded by handlers against the operation history")
p("C20","Conversions and managed classes stay consistent while plugins load",
"Converting, comparing, hashing or printing values, and creating or calling managed classes, gives the registered result at all times while other plugins of the same kind are concurrently loaded and unloaded. After loading returns the new function is used, and after unloading returns it is no longer used.",
["schedules","histories"],"every interleaving of lookups in many threads with load and unload of related plugins",
"Tests load all plugins before use, in one thread.",
["lib/Object/Convert.cpp","lib/Object/Compare.cpp","lib/Object/Hash.cpp","lib/Object/ToString.cpp","lib/Managed/Registry.cpp","lib/Managed/Class.cpp","lib/Proxy/Convert.cpp"],
[("function tables behind reader/writer spin locks updated by plugin events","lib/Object/Convert.cpp, Compare.cpp, Hash.cpp, ToString.cpp; lib/Managed/Registry.cpp; lib/Proxy/Convert.cpp")],
"results of conversions and managed calls against the known load state")
p("C21","Shared values are released exactly once",
"Objects, shared buffers, managed buffers and buffer chunks that are copied, moved, assigned and dropped by concurrent threads release what they own exactly once, when the last copy goes away, and never while a copy is still in use. Reported use counts are exact when nobody else is copying.",
["schedules","histories"],"every interleaving of copies, moves, assignments and releases by concurrent threads",
"Reference-count races need two threads inside the same few instructions; tests are single threaded.",
["include/Pothos/Object/ObjectImpl.hpp","lib/Object/Object.cpp","include/Pothos/Framework/ManagedBuffer.hpp","include/Pothos/Framework/SharedBuffer.hpp","include/Pothos/Framework/BufferChunk.hpp","lib/Framework/ManagedBuffer.cpp","lib/Framework/SharedBuffer.cpp"],
[("reference counts","include/Pothos/Object/ObjectImpl.hpp; include/Pothos/Framework/ManagedBuffer.hpp")],
"construction/destruction counts and heap state")
p("C22","Spin locks exclude, share and hand over memory correctly",
"At most one holder at a time owns an exclusive spin lock, a reader/writer spin lock never has a writer together with a reader or another writer, and several readers can hold it together. Everything written under a lock is visible to the next holder, try-lock never succeeds on a conflicting lock, and a released lock can be taken again.",
["schedules"],"every interleaving of lock, try-lock and unlock by any number of threads",
"Mutual exclusion and memory visibility are universally quantified over interleavings; no test covers the locks directly.",
[U+"SpinLock.hpp",U+"SpinLockRW.hpp"],
[("atomic flag / atomic counter protocol with acquire and release ordering","include/Pothos/Util/SpinLock.hpp, SpinLockRW.hpp")],
"critical sections instrumented with occupancy counters and happens-before checks")
p("C23","Mirrored and file-mapped memory is right or fails cleanly",
"A circular buffer is either created with both halves addressing the same memory, or its creation fails with an exception; a file-mapped buffer shows exactly the file's bytes or fails. Whatever system call fails or however the kernel places mappings, no memory that is not its own is touched, and no mapping, file or descriptor is leaked once it is released.",
["fault_sequences","inputs","schedules"],"every failing or misplaced system call during creation and destruction, by concurrent threads",
"Tests never make the kernel refuse or relocate a mapping.",
[F+"SharedBufferUnix.cpp",F+"SharedBuffer.cpp",F+"MemoryMappedBufferContainer.cpp",F+"Builtin/CircularBufferManager.cpp"],
[("double mapping of one shared memory object","lib/Framework/SharedBufferUnix.cpp"),("file mapping","lib/Framework/MemoryMappedBufferContainer.cpp")],
"memory contents through both halves; simulated kernel's table of mappings, descriptors and names")
p("C24","Remote client connects, resolves and retries correctly",
"Connecting to a remote server either yields a working connection to the requested host or raises an exception within bounded time, whatever the name service and network do. One failed, slow or hanging name lookup or connection attempt never affects other hosts or later attempts to the same host once the fault is gone.",
["fault_sequences","schedules"],"every sequence of name-resolution failures and delays, refused or dropped connections and partial data, with concurrent clients",
"Tests connect only to a live server on the local host.",
["lib/Remote/Client.cpp","lib/Util/Network.cpp"],
[("asynchronous lookup with a shared table, connection with timeout","lib/Remote/Client.cpp")],
"outcome and simulated duration of connection attempts")
p("C25","Serialized streams survive fragmentation and expose truncation",
"Whatever is written to an archive stream is read back as an equal value no matter how the byte stream is fragmented by the transport. A stream that is cut short or fails at any byte raises an error and is never returned as a successfully read value.",
["inputs","crash_points","fault_sequences"],"every value, every fragmentation and every cut or I/O error point of the stream",
"Archive tests round-trip complete in-memory streams only.",
["lib/Archive/StreamArchiver.cpp","include/Pothos/Archive/StreamArchiver.hpp","lib/Object/Serialize.cpp","include/Pothos/Archive/Numbers.hpp","include/Pothos/Archive/BinaryObject.hpp"],
[("raw byte transfer of the stream archivers","lib/Archive/StreamArchiver.cpp")],
"decoded values and exceptions")
p("C26","File locks exclude across holders and recover from interruption",
"At most one FileLock object at a time owns the lock on a file, whichever thread or process it belongs to; a waiting lock() succeeds once the holder releases the lock, is destroyed or its process dies. A failed or interrupted attempt raises an error, and neither leaves the lock held nor leaks the file or memory.",
["schedules","fault_sequences","crash_points"],"every interleaving of holders, releases, crashes and interrupted or failing system calls",
"No test contends for a file lock or interrupts one.",
["lib/Util/FileLockUnix.cpp","include/Pothos/Util/FileLock.hpp"],
[("advisory lock on an open descriptor","lib/Util/FileLockUnix.cpp")],
"occupancy of critical sections and the simulated kernel's lock and descriptor tables")
p("C27","Identifiers are unique",
"Identifiers handed out to objects never repeat, for any number of threads creating objects at the same time and for different processes running on the same or on different hosts.",
["schedules"],"every interleaving of concurrent creations",
"A duplicate needs two threads in the same increment.",
["lib/Util/UID.cpp","include/Pothos/Util/UID.hpp"],
[("process-wide counter","lib/Util/UID.cpp")],
"set of identifiers produced in a run")
p("C28","Statistics of a running design are consistent and harmless",
"Querying statistics, state or structure of a design while it runs returns well-formed reports whose per-port totals never decrease, never exceed what was really produced and never report more consumed than produced. Such queries never stall the design or alter data, labels or messages in flight, and after the design is idle the totals equal exactly what passed each port.",
["schedules","histories"],"every interleaving of queries with running workers",
"Tests query statistics at most once on an idle design.",
[F+"WorkerActor.cpp",F+"TopologyStatsJSON.cpp",F+"TopologyDumpJSON.cpp",F+"TopologyDotMarkup.cpp"],
[("statistics taken under exclusive access to the block","lib/Framework/WorkerActor.cpp queryWorkStats")],
"parsed reports compared with block-side counters")
p("C29","A design spanning a remote environment behaves like a local one",
"Blocks created in a remote environment and connected, committed, called and torn down through their references behave as they do locally: data and calls are delivered exactly once, results return to the caller, and commit errors on the remote side are reported. A broken connection makes operations fail without hanging the local side.",
["schedules","configurations","fault_sequences"],"every interleaving of the local controller, the session and the remote workers, and a cut at any point",
"The only remote test makes direct calls, no design is run remotely without network blocks.",
[F+"TopologyCommit.cpp","lib/Remote/RemoteProxyHandle.cpp","lib/Remote/ServerHandler.cpp",F+"Block.cpp"],
[("per-environment sub-topologies driven through references","lib/Framework/TopologyCommit.cpp commit")],
"elements seen by remote sinks and results seen by the controller")
p("C30","Pure data functions compute their specified result",
"Parsing, formatting, numeric and buffer conversion, expression evaluation, hashing, fixed-point maths and documentation parsing return the specified result for every input.",
["inputs"],"every input value of these functions",
"Tests sample a few inputs.",
["lib/Framework/DType.cpp","lib/Util/EvalEnvironment.cpp","lib/Framework/BufferConvert.cpp","lib/Util/BlockDescription.cpp","include/Pothos/Util/QFormat.hpp","lib/Object/Builtin/ConvertString.cpp"],
[("pure functions","the files listed")],
"return values")
p("C31","Plugin modules stay loaded while handles exist and leave with the last one",
"While a handle to a plugin module exists its library stays loaded and exactly the plugins its load registered belong to it, are registered under it and report its path and version; plugins that other threads register meanwhile belong to no module. When the last handle is gone the library is unloaded exactly once and all its plugins are gone; it can then be loaded again. Code of a module is never called once it is unloaded, a failed load leaves nothing behind, and nothing deadlocks.",
["schedules","fault_sequences","histories"],"every interleaving of loads, copies, drops, failing loads, registry calls and event handlers in several threads",
"The tests load no module at all.",
["lib/Plugin/Module.cpp","lib/Plugin/ModulePaths.cpp","lib/Plugin/Registry.cpp","lib/Plugin/Plugin.cpp","lib/Plugin/Static.cpp"],
[("association of plugins with the module being loaded","lib/Plugin/Module.cpp, lib/Plugin/Registry.cpp add"),("unload with the last handle","lib/Plugin/Module.cpp")],
"registry contents, handles and the simulated dynamic loader's loads and unloads")
p("C32","A module is loaded into the process only after a successful probe",
"PluginModule::safeLoad loads a file into the process only when a probe process loaded exactly this file with exactly this runtime library successfully, now or in an earlier session remembered in the cache file. A module that fails or kills its probe is refused with PluginModuleError and never loaded. A good module is accepted, and is probed again only after it or the runtime library was replaced, whatever the cache file contains, whichever other threads and processes use it and whichever system call fails; probe processes are reaped and no pipe is leaked.",
["schedules","fault_sequences","crash_points"],"every interleaving of loading threads, other processes that rewrite or tear the cache, replaced files, dying probes and failing system calls",
"No test loads a module or shares the cache with another process.",
["lib/Plugin/ModuleSafeLoad.cpp","lib/Plugin/Module.cpp","lib/Util/FileLockUnix.cpp"],
[("probe process and cache of successful probes","lib/Plugin/ModuleSafeLoad.cpp testLoadModule")],
"the probes started, the versions of the files they saw and what is loaded into the process")
p("C33","Initialisation loads everything once and de-initialisation removes it",
"When Pothos::init() returns, in any thread and however often it is called, every loadable module is loaded once and every valid configuration file is registered completely, with exactly the properties the file contains passed to its loader; an invalid or conflicting configuration file or module leaves nothing behind and affects no other. deinit() removes all of it, also after a failed or repeated init(), and never fails because a plugin is already gone; init() can then be repeated. System calls and probes that fail make init() throw or leave out what they concern, nothing else.",
["schedules","fault_sequences","inputs","histories"],"every set of valid, invalid and conflicting configuration files and modules, every interleaving of the loading threads, every failing system call",
"The tests initialise once, in one thread, with no configuration files.",
["lib/Init.cpp","lib/ConfLoader/ConfLoader.cpp","lib/ConfLoader/BlockDescLoader.cpp","lib/ConfLoader/JSONTopologyLoader.cpp","lib/ConfLoader/JITCompilerLoader.cpp","lib/Plugin/Loader.in.cpp"],
[("one-time initialisation","lib/Init.cpp InitSingleton"),("configuration files loaded by concurrent tasks","lib/ConfLoader/ConfLoader.cpp")],
"registry contents, loaded modules and loader calls after init and deinit")
p("C34","Blocks compiled on first use are compiled once, completely and up to date",
"The first use of a block from a compiler configuration compiles its sources with exactly the configured arguments and loads the result; this and every concurrent or later use yields a proper block of that module made with the given arguments, or an error if compiling or loading failed, which includes what the compiler printed, and the block stays available for another attempt. Sources are never compiled by two threads or processes at once nor again once loaded, and no temporary file or process of a compilation is left behind; an output is used only if it was completely written and no source is newer, whatever other processes, edits, failing system calls or earlier sessions did. The module stays loaded as long as blocks of it exist, and nothing is left registered after deinit().",
["schedules","fault_sequences","crash_points","histories"],"every interleaving of users, source edits, other processes and failing compilations, copies, renames, locks and loads over several sessions",
"No test uses a compiler configuration.",
["lib/ConfLoader/JITCompilerLoader.cpp","lib/Util/Compiler.cpp","lib/Util/Builtin/GccClangCompilerSupport.in.cpp","lib/Framework/BlockRegistry.cpp","lib/Plugin/Registry.cpp"],
[("compile, move into place, load and replace the registration","lib/ConfLoader/JITCompilerLoader.cpp opaqueJITCompilerFactory")],
"blocks returned, versions of the sources in the loaded module, calls of the simulated compiler and loader")
p("C35","A remote server process lives exactly as long as its handles",
"Creating a RemoteServer either yields a handle to a running process that listens on the reported URI and serves clients, or throws a Pothos exception carrying what the process printed and leaves no process, pipe or connection behind. The server stays up while any copy of the handle exists, whatever other clients connect, leave or break; it has ended and been reaped once the last copy is gone, and it also ends when its creator dies. Lines the server prints are forwarded to the system log once, whole and in order per stream, a failed send costs only that message, and a second start of forwarding is refused without harm.",
["schedules","fault_sequences","crash_points","histories"],"every interleaving of creators, handle copies, clients and output of several servers, with failing system calls and dying processes",
"The tests start one server, use it from one thread and kill it, with nothing failing.",
["lib/Remote/Server.cpp","apps/PothosUtilProxyServer.cpp","lib/Remote/ServerHandler.cpp","lib/Remote/Client.cpp"],
[("process launch, port discovery and monitoring connection","lib/Remote/Server.cpp"),("server that ends when its last active client leaves","apps/PothosUtilProxyServer.cpp")],
"the simulated process, pipe, socket and datagram tables against the handles alive, and the lines printed")
p("C36","Redirected output and forwarded log messages arrive once, whole and in order",
"After Logger::forwardStdIoToLogging everything any thread writes to the standard streams reaches the log instead of the original stream, exactly once and in order per thread and stream, each write in one piece, a flushed line at once, an unfinished one when its output continues after a pause, with the given source and the priority its text names; another call changes the source and nothing else. From startSyslogForwarding on every message of every logger that follows the root logger is sent once to the given address and to no other place, a failed send costs only that message, subprocesses inherit the address; from stopSyslogForwarding on nothing is sent and messages go where they went before. startSyslogListener, from any number of threads, yields one port where messages received are logged once with their source, text and priority, or fails and can be repeated; stopping it closes all sockets.",
["schedules","fault_sequences","histories"],"every interleaving of printing and logging threads, every sequence of starts and stops, failing binds and sends",
"No test redirects output, forwards log messages or starts a listener.",
["lib/System/Logger.cpp"],
[("stream buffer that collects output until it is flushed","lib/System/Logger.cpp InterceptStream"),("channel of the root logger replaced while forwarding","lib/System/Logger.cpp startSyslogForwarding")],
"messages in a recording log channel, datagrams on the simulated network, characters that reach the original streams")
p("C37","A design made from its JSON description is the described design or nothing",
"Topology::make(json), from any number of threads at once and while block factories are registered and removed, makes every described block once, in the described order, with the arguments and then the calls of the description, all expressions evaluated with the globals and the block's own locals (which take precedence) and strings that are no expression taken literally; blocks carry their ids as names, run on the thread pool they name or on the pool named '' (whose thread limit holds), and are connected exactly as described, including the ports of the design itself, so that running the design delivers the described data. If the description is malformed, names something unknown, or a factory or call fails at any point, make throws a Pothos exception that names the block, and nothing of the design is left behind. Designs made at the same time do not influence each other.",
["inputs","schedules","fault_sequences"],"every description, with factories and calls failing at any point, and every interleaving of threads that make, run and release designs",
"The tests make a few fixed descriptions, one at a time, with factories that do not fail.",
["lib/Framework/TopologyMakeJSON.cpp","lib/Framework/BlockRegistry.cpp","lib/Util/EvalEnvironment.cpp","lib/Framework/ThreadPool.cpp"],
[("JSON description to blocks, calls, pools and connections","lib/Framework/TopologyMakeJSON.cpp Topology::make"),("block factory by path","lib/Framework/BlockRegistry.cpp blockRegistryMake")],
"arguments, calls, names, pools and threads recorded by the harness blocks, elements at the sinks, blocks and threads alive")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
