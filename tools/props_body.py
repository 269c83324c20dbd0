# ---- API -----------------------------------------------------------------
p("C01","Add is durable before it is visible, and acknowledged only after both",
 "An Add request hands its messages to durable storage before any of them is handed to the cache that makes them pullable. When storage or the cache reports an error the request fails; when storage reports an error no message of the batch reaches the cache. A successful Add has handed every stored message to the cache under the message's own queue and reports exactly the created and updated counts storage returned.",
 ["fault_sequences","inputs"],"every Add request and every combination of storage and cache failures",
 "Tests use mocks for a few fixed outcomes; they cannot cover every path from a failing dependency to the reply.",
 [SV,Q],[("Add calls storage then cache and checks both errors","(*Deckard).Add"),("error propagation","(*Queue).AddMessagesToStorage, (*Queue).AddMessagesToCache")],observe=["gRPC Add reply","storage.Insert / cache.Insert calls"])
p("C02","No RPC reports success after a failed storage or cache operation",
 "For every RPC (Add, Pull, Ack, Nack, Remove, Count, GetById, GetQueue, EditQueue, Flush), when an underlying storage or cache operation that returns an error fails, the RPC returns a gRPC error. The one exception is the best-effort cache clean-up of ids that Pull found missing from storage twice.",
 ["fault_sequences","inputs"],"every RPC, every failing operation on every path",
 "Fault combinations on all paths are not enumerated by the unit tests.",
 [SV,Q,"internal/queue/queue_configuration_service.go"],[("error checks after every storage/cache call","service and queue methods")],observe=["gRPC status"])
p("C03","Message fields survive the trip from Add to Pull and GetById",
 "The stored message carries, for each field of the added message (id, queue, timeless, description, payload, string payload, metadata), the value the client sent in that same field, with queue prefix/suffix derived from the queue name. Pull and GetById return for each response field (id, description, queue, score, breakpoint, payload, string payload, metadata, diagnostics) the stored value of that same field.",
 ["inputs"],"every message content",
 "Tests check a handful of fields on sample messages; a swapped or dropped field on a path they do not read is unseen.",
 [SV],[("field-by-field construction","(*Deckard).Add, (*Deckard).Pull, (*Deckard).GetById")],observe=["messages handed to storage","PullResponse / GetByIdResponse"])
p("C04","Pull always asks for between 1 and 1000 messages",
 "Whatever amount a client requests, the number of messages a Pull moves to the processing pool is bounded to at least 1 and at most 1000; amounts inside that range are used as given, smaller ones become 1 and larger ones 1000.",
 ["inputs"],"every int32 amount","Only sample amounts are tested; the bound must hold for all and reach the cache unchanged.",
 [SV,Q],[("clamp","(*Deckard).Pull")],observe=["cache.PullMessages argument"])
p("C05","Scores written by client requests stay within 0 and 2^53",
 "Every score derived from an Add, Ack or Nack request that reaches storage or cache lies in [0, 9007199254740992] and is a number (never NaN), for every float value in the request and any lock duration; the single exception is the undefined marker (-1), used only when a message is locked without an explicit score. A provided in-range non-zero score is used unchanged.",
 ["inputs"],"every float64 (incl. negatives, NaN, infinities) and every lock_ms",
 "Float edge cases (NaN, -1, infinities, negative locks) are not sampled.",
 [SV,"internal/queue/score/score.go",Q],[("capping","score.GetAddScore, (*Deckard).Ack, (*Deckard).Nack")],observe=["storage.Insert/Ack/Nack and cache.Insert/MakeAvailable/LockMessage arguments"])
p("C06","Score helper functions obey their documented total definition",
 "GetPullMinScore and GetPullMaxScore return no filter exactly for 0, the maximum for anything above it, the minimum for anything below it and the given score otherwise; GetAddScore returns the default algorithm exactly for 0, caps to [Min, Max] and otherwise keeps the score; a score is undefined exactly when it equals -1; Min is 0, Max is 2^53 and Undefined lies outside [Min, Max].",
 ["inputs"],"every float64","Tests sample about three values per function; boundary and NaN classes are not covered.",
 ["internal/queue/score/score.go"],[("comparison chains","score.go")],observe=["return values"])
p("C07","Flush wipes data only when both cache and storage are in-memory",
 "A Flush request deletes data only on an instance whose cache and storage are both the in-memory implementations; on any other instance it deletes nothing and reports success=false. Nothing else in the service reaches the delete-everything operations.",
 ["configurations","inputs"],"every combination of cache and storage type","Tests build the service with the flag set by hand; the wiring from configuration to the guard is never tested.",
 [SV,MAIN],[("memoryInstance guard","(*Deckard).Flush"),("isMemoryInstance","main.go")],observe=["storage.Flush / cache.Flush calls"])
p("C08","TLS settings are never silently weakened",
 "If a server certificate or key path is configured, the gRPC server either serves with TLS using all configured certificate/key pairs or refuses to start; any load, parse or length error refuses to start. Each documented client-auth mode maps to the same-named TLS mode, any other value is refused, and configured client CA files all end up in the pool used to verify clients.",
 ["configurations","fault_sequences"],"every combination of TLS settings and file errors","TLS tests cover a few configurations only.",
 [SV],[("loadTLSCredentials, getClientAuthType, loadClientCertPool","deckard_service.go")],observe=["grpc.NewServer options","start-up error"])
p("C09","Every RPC name is wired to the method and messages of that name",
 "For each RPC of the Deckard service, the server dispatches it to the server method of that name with that RPC's request type, and the client stub invokes the same full method name with the matching request and response types. The application server implements every RPC. Every generated accessor of a message returns the field it is named after (zero value on a nil message), and field numbers and types match the proto definition.",
 ["inputs","programs"],"every RPC and every message field","No test exercises the generated wiring of most RPCs, clients or accessors.",
 ["deckard_service_grpc.pb.go","deckard_service.pb.go","proto/deckard_service.proto",SV],[("service descriptor, handlers, client stubs, getters","generated code")],observe=["gRPC calls"])
p("C10","gRPC limits and keepalive settings reach the server option they name",
 "Each gRPC setting (max receive size, max send size, keepalive time, keepalive timeout, max connection idle, age and age grace, port) sets exactly the server parameter of that name from the configuration key of that name, and an unset keepalive setting leaves the library default.",
 ["configurations"],"every configuration","Options are opaque after construction; tests cannot observe them.",
 [SV,CFG+"service.go"],[("option construction","ServeGRPCServer, getGrpcKeepaliveParams")],observe=["grpc.NewServer options"])
# ---- queue semantics -------------------------------------------------------
p("C11","Ack and Nack update storage first and then release exactly once",
 "An Ack (Nack) for a message with valid queue and id records the result in storage before the message leaves the processing pool, and touches the cache only if storage succeeded. With a positive lock time the message is locked in the ack (nack) lock pool, otherwise it is made available; it is released exactly once, and a message with missing queue or id changes nothing. The score and lock time given to storage are the ones given to the cache.",
 ["fault_sequences","inputs"],"every message and every failure point","Tests mock a few success/failure combinations.",
 [Q],[("Ack, Nack","queue.go")],observe=["storage.Ack/Nack, cache.LockMessage/MakeAvailable calls"])
p("C12","Remove deletes from storage first, then from cache, for exactly the given ids",
 "Removing messages deletes exactly the requested ids of the requested queue from storage and then from the cache; if storage fails the cache is not touched, and the counts returned are those reported by each layer. A removal requested through Ack/Nack (remove_message) happens only after the ack or nack succeeded and removes that same message.",
 ["fault_sequences","inputs"],"every removal request and failure point","Ordering under failure is tested for one mock sequence only.",
 [Q,SV],[("Remove","queue.go"),("removeMessageFromAckNack","deckard_service.go")],observe=["storage.Remove, cache.Remove calls"])
p("C13","Pull never discards a message unless two storage reads missed it",
 "Pull returns only messages found in storage for the ids the cache handed out for that queue. Ids missing from the first read are looked up again with the retry read; an id is removed from the cache only if both reads succeeded and neither returned it. A storage error on either read removes nothing and fails the Pull.",
 ["fault_sequences","histories"],"every subset of missing ids and every read failure","Tests cover single missing ids with mocks.",
 [Q],[("Pull, getFromStorage, notFoundIds","queue.go")],observe=["storage.Find options, cache.Remove arguments"])
p("C14","Recovery never skips messages and always ends",
 "During cache recovery the storage breakpoint is advanced only to the last message of a page all of whose messages were successfully inserted in the cache, and recovery is declared finished only after a page shorter than the page limit or an empty storage. Starting recovery marks it running before anything else, and declaring it finished never leaves it marked as running: the finished marker is written only after the running marker was successfully cleared.",
 ["crash_points","fault_sequences"],"every crash or failure between recovery steps","A crash between two cache writes is not simulated by any test.",
 [HK],[("RecoveryMessagesPool, tryToStartRecovery","queue_housekeeper.go")],state=[("recovery keys","running flag, storage breakpoint, recovery breakpoint","cache keys")],observe=["cache.Set calls"])
p("C15","TTL and max-elements removal never run while recovery is running",
 "The expiry job and the max-elements job remove nothing while the recovery marker says recovery is running or while that marker cannot be read.",
 ["schedules","fault_sequences"],"every interleaving of jobs with recovery","Tests check one mocked value per job.",
 [HK],[("isRecovering guard","RemoveTTLMessages, RemoveExceedingMessages")],observe=["storage.Remove / cache.Remove calls"])
p("C16","Housekeeping removes only expired or exceeding messages, oldest expiry first",
 "The expiry job removes only messages selected by an expiry filter at the date it was given. The max-elements job acts only on queues with a positive limit whose message count exceeds it, and removes exactly count minus limit messages of that queue, chosen in ascending expiry order.",
 ["inputs","histories"],"every queue content and limit","Tests use two or three fixed counts.",
 [HK],[("RemoveTTLMessages, removeExceedingMessagesFromQueue","queue_housekeeper.go")],observe=["storage.Find options","Remove arguments"])
p("C17","Every state transition is audited with its own signal, and only when it happened",
 "For each message inserted in cache, acked, nacked, timed out, unlocked, removed or found missing from storage, exactly one audit entry with the signal of that transition, the message id and its queue is recorded, only after the operations it reports succeeded; no audit entry is recorded for a failed operation.",
 ["fault_sequences","inputs"],"every transition and failure point","Most tests ignore the auditor or accept any entry.",
 [Q,HK,"internal/audit/audit_signal.go"],[("auditor.Store calls","queue.go, queue_housekeeper.go")],observe=["audit entries"])
p("C18","Housekeeping jobs stop at the next queue once shutdown starts",
 "Every housekeeping loop that processes queue after queue checks for shutdown before each queue and starts no further queue operation once shutdown has begun.",
 ["schedules"],"every moment at which shutdown starts","Tests shut down only before a job starts.",
 [HK,SH],[("shutdown.Ongoing checks","queue_housekeeper.go")],observe=["storage/cache calls after shutdown start"])
p("C19","Metric labels use the queue prefix, never the full queue name",
 "Every queue label recorded in metrics is the queue prefix (the part before the first separator), so per-user queue suffixes never become label values.",
 ["inputs"],"every queue name","Tests do not inspect metric labels.",
 [Q,HK],[("GetQueuePrefix at each record site","queue.go, queue_housekeeper.go")],observe=["metric attributes"])
# ---- cache -----------------------------------------------------------------
p("C20","Memory cache: a message id is in at most one pool of its queue",
 "In the in-memory cache, an id of a queue is in at most one of the active, processing, ack-lock and nack-lock pools after every operation: every move inserts the id into its destination only after removing it from its source, and a new id is inserted only if it is in none of the pools. A timeout, pull, lock, unlock or make-available moves an id only between the pools that operation names, and removal covers every pool.",
 ["histories","inputs"],"every sequence of cache operations","Suite tests follow short fixed sequences.",
 [MC],[("per-operation move code","memory_cache.go")],state=[("pools","four maps of queue to list","MemoryCache")],observe=["Cache API results"])
p("C21","Redis cache: scripts move ids atomically between the pools they are given",
 "Every Redis script that adds an id to a pool either removes it from its source pool in the same script or first verifies that it is in none of the queue's pools; each operation binds the script's keys to the right pools of the queue it was asked for (source, destination, score) and its arguments to the right values; removal covers every message pool. Each operation is a single script call. The ids an operation returns are exactly those its script moved (over all parts of a long list), the flag it returns tells whether the message moved, and a failed Redis call is reported as an error. IsProcessing asks the processing pool of the queue for the given id.",
 ["schedules","crash_points"],"every interleaving of concurrent operations and crashes between commands","Redis tests need a live server and follow fixed sequences.",
 [RC,RS],[("Lua scripts","redis_cache_scripts.go"),("Run call sites","redis_cache.go")],observe=["Redis commands"])
p("C22","Redis keys of one queue share a slot, and brace names never reach Redis",
 "All keys an operation passes to one script carry the same hash tag, which is the queue name in braces, and distinct queues or pools never share a key. An operation on a queue whose name contains '{' or '}' is rejected before any Redis command is issued.",
 ["inputs","configurations"],"every queue name, prefix and mode","Cluster behaviour needs a cluster; name validation is tested on some operations only.",
 [RC],[("key builders","activePool, processingPool, lockPool, lockPoolScore"),("validateQueueName","every public operation")],observe=["KEYS of each command"])
p("C23","Redis flush and listing stay inside the configured namespace, on every shard",
 "Every key read, written, scanned or deleted starts with the configured prefix, which scan patterns match literally whatever characters it contains; the whole-database flush command is never issued, and Flush deletes every key found. In cluster mode key scans are run on every master node, a scan follows its cursor until it returns to zero, and the keys of all nodes are collected without racing or replacing one another.",
 ["configurations","inputs"],"every prefix, cluster size and key count","Needs shared Redis and a multi-node cluster.",
 [RC],[("fullPrefix/poolPrefix, ForEachMaster, scanKeys, deleteByPattern","redis_cache.go")],observe=["Redis commands"])
p("C24","Redis scripts are never given more arguments than Lua can unpack",
 "The number of elements any Redis script unpacks at once is bounded below 8000 on every path: insert and remove calls are partitioned and moves are limited, and partitions together cover all elements exactly once.",
 ["inputs"],"every batch size","Tests use small batches.",
 [RC,RS],[("gopart partitions and LIMIT arguments","redis_cache.go")],observe=["ARGV length"])
p("C25","Locked messages come back with the promised score in both caches",
 "A message locked with a score returns to the active pool with that score; one locked without (undefined marker) returns with the current time for an ack lock and the minimum score for a nack lock. Both cache implementations use the same marker, the same pool per lock type and the same defaults, and a timed-out message returns with the minimum score.",
 ["histories","inputs"],"every lock/unlock history","Tests check a few score values per implementation.",
 [MC,RC,RS],[("IsUndefined / '-1' in script","memory_cache.go, redis_cache_scripts.go")],observe=["scores after unlock"])
p("C26","Cache deadlines are consistently in milliseconds",
 "In both caches the processing deadline is now plus the ack deadline, and the lock deadline is now plus the lock time, with both terms in milliseconds, and timeout and unlock compare it against the current time in milliseconds; an ack deadline of zero means the default of five minutes. A huge positive duration never wraps around into the past, and a huge negative one never into the future.",
 ["inputs","histories"],"every clock value and deadline","Unit mix-ups only show with real durations.",
 [MC,RC,"internal/queue/cache/cache.go"],[("deadline arithmetic","PullMessages, LockMessage, TimeoutMessages, UnlockMessages")],observe=["deadline scores"])
p("C28","Redis pull, timeout and unlock select exactly the matching messages",
 "A pull from Redis takes at most the requested number of messages of the queue, lowest score first, and only those whose score lies in the given inclusive bounds; an absent bound does not filter. Timeout and unlock select every message whose deadline is not after the current time (up to their batch limit, which is at least one) from the pool they are named after, and never one that is not yet due.",
 ["inputs","histories"],"every queue content, amount and pair of score bounds",
 "Needs a live Redis; the suite tries a few scores.",
 [RC,RS],[("range commands","pullElementsScript, moveFilteredElementsScript, unlockElementsScript"),("arguments","PullMessages, TimeoutMessages, UnlockMessages")],observe=["ids moved"])
p("C27","Memory cache timeout, unlock and pull treat the whole named queue and no other",
 "In the in-memory cache, unlocking or timing out a queue processes every due message of that queue in one call and touches no other queue; a message that is not yet due stays where it is. A pull with score filters returns up to n matching messages, lowest score first, and keeps non-matching ones in the active pool. The ids an operation reports are exactly those it moved (inserted), make-available and lock report true exactly when the message moved, an unknown or empty queue is no error and does not panic, and Insert rejects messages that name another queue.",
 ["inputs","histories"],"every number of due messages and queues","Suite tests use one due message in one queue.",
 [MC],[("list iteration","UnlockMessages, TimeoutMessages, PullMessages")],observe=["returned ids"])
# ---- storage ---------------------------------------------------------------
p("C30","In-memory stores never race: shared state is accessed only under its lock",
 "Every read of shared state of the in-memory cache and storage happens with its mutex held and every write with it held exclusively; the mutex is released on every exit path and never re-acquired while held.",
 ["schedules"],"every interleaving of concurrent requests","Race tests sample few schedules.",
 [MC,MS],[("sync.Mutex / RWMutex","memory_cache.go, memory_storage.go")],observe=["data races, deadlocks"])
p("C31","In-memory store updates are atomic check-and-act steps",
 "An in-memory storage or cache operation that decides on the basis of what it read (exists, expired, due) performs the dependent update in the same critical section, so no concurrent operation can intervene; and an Insert rejected for an invalid message changes nothing.",
 ["schedules","inputs"],"every interleaving of concurrent requests","Needs a particular interleaving between two lock acquisitions.",
 [MS,MC],[("single critical section","Insert, Ack, Nack")],observe=["lost updates, nil dereference"])
p("C32","In-memory storage keeps its own copy of messages",
 "The in-memory storage never shares mutable message state with its callers: it does not keep the caller's message object, and no message it returns shares an object that a later operation of the storage modifies in place.",
 ["schedules","histories"],"every sequence of inserts, finds and updates","Aliasing shows only when the caller mutates or reads concurrently.",
 [MS],[("copy on insert and on find","Insert, Find")],observe=["message contents"])
p("C33","Storage operations are scoped to the exact queue and id",
 "Insert, Ack, Nack and Remove in both storages select messages by both queue and id, no two distinct (queue, id) pairs share an identity, and deleting without such a filter happens only in the flush operation.",
 ["inputs"],"every pair of queue names and ids","Collisions need crafted names; tests use distinct simple names.",
 [MS,MG],[("filters and keys","Insert, Ack, Nack, Remove, getKey")],observe=["documents changed"])
p("C34","Memory and Mongo storages record the same facts on Ack and Nack",
 "On Ack both storages set last usage, last score subtract, breakpoint, score and lock time from the request, add one to usage count, acks and consecutive acks, add the subtract to its total and reset consecutive nacks; on Nack both set score and lock time, add one to nacks and consecutive nacks and reset consecutive acks. Neither changes any other field.",
 ["inputs","histories"],"every ack/nack history","Sibling implementations are tested separately with few fields.",
 [MS,MG],[("update documents / field updates","Ack, Nack")],observe=["stored documents"])
p("C35","Mongo writes are well-formed and preserve state of existing messages",
 "Re-adding an existing message never changes its score, last usage or counters in either storage; every field name the Mongo storage writes, filters by or lists is the stored name of a message field (sort keys and projections are those of the caller); no update sets the same field in two operators; and each written field takes the value of the message field of that name.",
 ["inputs"],"every message","Mongo tests need a server; name typos surface only as silently missing data.",
 [MG,MS,"internal/queue/message/message.go"],[("bson documents","mongo_storage.go")],observe=["documents"])
p("C36","Both storages apply every search filter with the same meaning",
 "Find and Count in both storages restrict results by each supplied filter: ids (any of), queue (equal), queue prefix (equal), internal id strictly greater than the lower and at most the upper breakpoint, expiry date not after the given date; results are sorted by the requested keys in order and direction and limited to the requested number. No message that satisfies every supplied filter is left out, except that Find of the in-memory storage leaves out expired messages when no expiry date is supplied.",
 ["inputs"],"every filter combination","Tests cover some filters one at a time.",
 [MS,MG],[("matchesInternalFilter / getMongoMessage","memory_storage.go, mongo_storage.go")],observe=["Find/Count results"])
p("C37","Storage retry reads go to the primary",
 "A find marked as retry is read through the client with primary read preference, and an ordinary find through the secondary-preferred client; both clients address the same database and message collection.",
 ["configurations","histories"],"every find","Needs a replica set with lag.",
 [MG],[("collection selection","Find, NewMongoStorage")],observe=["read preference"])
# ---- config ----------------------------------------------------------------
p("C40","Settings resolve by main key, then aliases in order, then default",
 "For every setting and every getter (string, bool, int, duration), a non-default value of the main key wins, otherwise the first alias in order with a non-default value, otherwise the default; an unparsable duration counts as not set. Setting a value sets the main key and every alias.",
 ["configurations","inputs"],"every key and every combination of set aliases","Tests sample one or two aliases per getter.",
 [CFG+"viper_config.go",CFG+"config.go"],[("getWithFallback and getters","viper_config.go")],observe=["getter results"])
p("C41","Documented environment variables exist with the documented default",
 "Every environment variable in the configuration documentation is bound to a setting with the documented default, setting keys and aliases are unique, and each default has the type its readers ask for.",
 ["configurations"],"every documented variable","Tests check about twenty defaults of fifty settings.",
 [CFG,"README.md","docs/components.md"],[("ViperConfigKey declarations","internal/config")],observe=["effective configuration"])
p("C42","Configuration is read only after it is loaded, and every setting is honoured",
 "No setting is read before configuration has been loaded at process start, and every declared setting is read by the part of the system it configures.",
 ["configurations"],"every setting","Package initialisation order is invisible to unit tests.",
 [CFG,MAIN,"internal/metrics/metrics.go"],[("config.Configure in main","main.go")],observe=["settings ignored at run time"])
p("C43","The configured cache and storage types select the implementation of that name",
 "REDIS selects the Redis cache, MONGODB the Mongo storage and MEMORY the in-memory ones; any other value is an error and the process does not start with a substitute. A connection error at start-up is never turned into a usable-looking instance.",
 ["configurations","fault_sequences"],"every type value and connection failure","Needs failing servers.",
 ["internal/queue/cache/cache.go",ST,RC,MG,MAIN],[("CreateCache, CreateStorage","cache.go, storage.go")],observe=["start-up result"])
p("C44","Connection attempts are bounded and honour the retry settings",
 "Connecting to Redis (single or cluster) or MongoDB makes at most the configured number of attempts (a number below one counts as one, or is refused with an error), stops after the first failure when retry is disabled, otherwise gives up only after that number, waits the configured delay between attempts, stops with an error when the context is cancelled while waiting, and returns an error unless the last attempt succeeded; success means the server answered the ping.",
 ["configurations","fault_sequences"],"every attempts/enabled/delay setting and failure pattern","Tests use one unreachable address.",
 [RC,MG],[("waitForSingleNodeClient, waitForClusterClient, waitForClient","redis_cache.go, mongo_storage.go")],observe=["number of attempts, returned error"])
# ---- helpers ---------------------------------------------------------------
p("C50","Time conversions keep milliseconds exact",
 "Converting a time to milliseconds divides its nanoseconds by one million; converting milliseconds back yields the same instant for every value including negatives; elapsed time is reported in milliseconds; current time always comes from the replaceable time source.",
 ["inputs"],"every instant","Tests sample a few instants.",
 ["internal/dtime/deckard_time.go"],[("TimeToMs, MsToTime, MsPrecision, ElapsedTime, NowMs","deckard_time.go")],observe=["return values"])
p("C51","Queue names split at the first separator",
 "For every queue name, the prefix is everything before the first '::' and the suffix everything after it; a name without the separator is all prefix with an empty suffix. Every derived helper agrees with that split.",
 ["inputs"],"every string","Tests use one name with and one without a separator.",
 ["internal/queue/message/message.go","internal/queue/pool/pool.go"],[("GetQueueParts","message.go")],observe=["prefix and suffix"])
p("C52","Numeric helpers are total and strict",
 "The minimum helper returns the smaller argument for every pair; text is parsed to 64-bit integers in base 10 and to 64-bit floats with parse errors reported, never swallowed; a pointer helper returns a pointer to a fresh copy of its argument.",
 ["inputs"],"every input","Tests use a few values.",
 ["internal/queue/utils/math_helper.go","internal/queue/utils/primitive_conversion.go"],[("MinInt64, StrToInt64, StrToFloat64, Int64Ptr","utils")],observe=["return values"])
# ---- lifecycle -------------------------------------------------------------
p("C60","Shutdown proceeds in order: stop, drain, cancel, wait, finish",
 "On shutdown the process marks shutdown as started, stops the gRPC server gracefully, waits for critical background work, flushes traces, only then cancels the root context, waits for remaining background work and finally marks shutdown finished, on every path.",
 ["schedules"],"every moment of shutdown","Order between goroutines is not observed by tests.",
 [SH],[("PerformShutdown","shutdown.go")],observe=["order of effects"])
p("C61","Background tasks are tracked and mutually exclusive as designed",
 "Every execution of a background task is registered with its shutdown wait group for its whole duration and deregistered afterwards, and never starts after the scheduler saw shutdown. Recovery, expiry and max-elements tasks never run at the same time; recovery is waited for before the context is cancelled; each task runs its own job at its own configured interval.",
 ["schedules"],"every interleaving of schedulers and shutdown","Schedulers are never run concurrently in tests.",
 [MAIN],[("scheduleTask, startHouseKeeperJobs","main.go")],observe=["task executions"])
p("C62","Accepted audit entries are delivered, and auditing never panics",
 "Every entry accepted by the auditor is sent in exactly one batch: a batch is sent when it is full, when the maximum delay passes without a new entry, and at shutdown, including the entries still queued then; the buffer is only reset after it was sent, and the auditor's wait group is released only afterwards. Recording an audit entry never panics, even after shutdown; it is dropped only when auditing is disabled or has been stopped.",
 ["schedules","crash_points"],"every interleaving of recording and shutdown","Tests need Elasticsearch and never race recording with shutdown.",
 [AU],[("StartSender, Store","audit.go")],observe=["bulk requests, panics"])
p("C63","Spans of the configured tracer are flushed at shutdown",
 "When tracing is enabled, the tracer provider that is installed for the process is the one shut down (flushed) during shutdown; when it is disabled no provider is installed.",
 ["configurations"],"both tracing configurations","Shadowed variables are invisible to tests without an exporter.",
 ["internal/trace/trace.go"],[("Init, Shutdown","trace.go")],observe=["provider shut down"])
p("C64","Metrics exist under documented names and types before anything records them",
 "Every instrument of the metrics package that is recorded anywhere in the module is created during the initialisation of that package, on every path, each under a name of its own; every metric of the documented table is created with the documented type and, where it is recorded with constant label keys, with exactly the documented labels. The two gauges report every queue of their own map with its value under the label queue; an update of a map keeps every new value, reports queues that are gone as 0, and never changes a map a scrape may be reading.",
 ["programs","inputs"],"every instrument, every recording, every content of the queue maps","A nil instrument panics only on the path that records it, and a metric nobody looks at in a test can vanish.",
 ["internal/metrics/metrics.go","internal/metrics/metrics_map.go","docs/components.md"],[("createMetrics, metrify","metrics.go"),("mergeData","metrics_map.go")],observe=["metrics endpoint"])
p("C65","A changed queue limit is always stored, and later reads see it",
 "Editing a queue with a non-zero max-elements value stores that value for exactly that queue unless the locally cached value of the queue is already the same, zero leaves the stored value unchanged and a negative value removes the limit (0 is stored), in both storages; a failed edit is reported. After an edit that was stored, the value cached before it is no longer served; a read returns the locally cached value or else the stored one, or no limit when none is stored, remembers what it returned for a limited time, and neither answers nor remembers a failed read.",
 ["histories","inputs"],"every sequence of edits and reads","The local cache makes the outcome depend on earlier reads.",
 ["internal/queue/queue_configuration_service.go",MS,MG],[("EditQueueConfiguration, GetQueueConfiguration","queue_configuration_service.go")],observe=["GetQueue results"])
p("C66","A message expires when the client asked for it, and never before it was added",
 "The expiry date of a message added through the Add call is the time of the call plus the requested time to live in minutes, plus one hundred years when it is timeless, for every value of the request; no time to live, however long, makes the computation overflow so that the message expires at once.",
 ["inputs"],"every 64-bit time to live and both values of timeless","Tests use a handful of small values.",
 [SV],[("Add","deckard_service.go")],observe=["expiry date of the stored message"])
p("C67","Requests reach storage and cache in their own terms, replies report their result",
 "Pull takes messages of the requested queue with the requested acknowledgement deadline and the requested minimum and maximum score, each clamped to 0..2^53 and absent when 0, where a positive score filter stands for the time that many milliseconds ago only when no maximum is given. Ack and Nack store the requested id, queue, breakpoint and score_subtract, lock the message for the requested time exactly when that is positive (as an ack or a nack lock respectively), and release it otherwise; without lock and provided score an ack scores the message with the current time minus score_subtract and a nack with the minimum, and a locked message keeps its score open until the unlock. They remove exactly that message, only when the request says so. Count and GetById filter by exactly the requested queue and id; Remove removes exactly the requested ids of the requested queue. The counts, the found flag and the success flag of a reply are those of the operations that were made; EditQueue and GetQueue pass the requested queue and its max elements unchanged.",
 ["inputs","fault_sequences"],"every request and every outcome of the storage and the cache","Tests pass a few requests through mocks.",
 [SV,Q],[("Pull, Ack, Nack, Count, GetById, Remove, EditQueue, GetQueue","deckard_service.go")],observe=["storage and cache calls, replies"])
p("C70","Background jobs reach every queue they are responsible for",
 "The timeout job times out every queue of the processing pool; the unlock job unlocks every queue of both lock pools, each with the kind of lock that pool holds; the max-elements job handles every configuration with a name and a positive limit; the metrics job sets the element count of every queue prefix from a count of that prefix and its age from its least recently used message. An operation that fails for one queue does not keep the job from the others: only shutdown, a cancelled context or a failed listing does.",
 ["fault_sequences","inputs"],"every set of queues and every pattern of failures","Tests run the jobs with one queue and no failure.",
 [HK],[("ProcessTimeoutMessages, ProcessLockPool, RemoveExceedingMessages, ComputeMetrics","queue_housekeeper.go")],observe=["queues processed by a run"])
p("C71","Recovered messages keep their queue, id and score",
 "Every message recovery restores to the cache was read with its id, queue and score, and its score is the stored one brought into 0..2^53, unchanged when it is in that range already; the other jobs, too, read messages with every field they use.",
 ["inputs"],"every stored score and every page","Tests compare few messages, all within the range.",
 [HK],[("RecoveryMessagesPool, RemoveTTLMessages, RemoveExceedingMessages","queue_housekeeper.go")],observe=["cache contents after recovery"])
p("C72","No message of a batch is left out",
 "Every message of an Add call is handed to the storage and to the cache, whatever queues the batch names; every message Pull reads from the storage, in the first read and in the retry, is in its result, and every message of that result is in the reply of the Pull call.",
 ["inputs","fault_sequences"],"every batch size and mix of queues","Tests use batches of a few messages.",
 [SV,Q],[("Add, Pull","deckard_service.go"),("AddMessagesToStorage, AddMessagesToCache, Pull","queue.go")],observe=["stored messages, replies"])
p("C73","The in-memory cache lists exactly the non-empty queues that match",
 "Listing the queues of a pool of the in-memory cache answers the names of all queues with at least one message in that pool that match the given pattern, whatever characters the names contain, and no others: in particular the pattern * matches every queue name.",
 ["inputs","histories"],"every set of queues, every name","Tests list a few queues with plain names.",
 [MC,"internal/queue/utils/glob_pattern.go"],[("ListQueues","memory_cache.go"),("MatchGlob","glob_pattern.go")],observe=["listed queues"])
