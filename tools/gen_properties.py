import json
P=[]
Q="internal/queue/queue.go"; H="internal/queue/queue_housekeeper.go"; S="internal/service/deckard_service.go"
RC="internal/queue/cache/redis_cache.go"; RS="internal/queue/cache/redis_cache_scripts.go"; MC="internal/queue/cache/memory_cache.go"
MG="internal/queue/storage/mongo_storage.go"; MS="internal/queue/storage/memory_storage.go"; SC="internal/queue/score/score.go"
CF="internal/queue/queue_configuration_service.go"; AU="internal/audit/audit.go"; SH="internal/shutdown/shutdown.go"; MN="internal/cmd/deckard/main.go"
ME="internal/queue/message/message.go"; DT="internal/dtime/deckard_time.go"; MX="internal/metrics/metrics.go"; MM="internal/metrics/metrics_map.go"
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
seam="none committed: checks interpose on locks, goroutines, sockets and clocks of a build-time rewritten copy"
p("C01","An accepted message is never lost before it is removed",
 "Once Add has answered successfully for a message, that message is sooner or later handed to a consumer that keeps pulling its queue, again and again after every ack, nack or missed deadline, until it is removed by a client, expires, or is evicted by the queue's size limit. This holds across crashes and restarts of Deckard processes at any instant, failed or timed-out cache and storage calls, lost replies, and complete loss of the cache's data.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of client requests and housekeeping on one or more Deckard processes, every crash point between two storage/cache calls, every sequence of dependency failures that eventually stops",
 "Unit tests call one layer at a time against mocks or a healthy backend, never crash between the storage and the cache write, and never follow one message through ack, lock, timeout, cache loss and recovery.",
 [Q,H,S,RC,RS,MC,MG,MS],[("storage first, cache second on Add","service Add -> queue.AddMessagesToStorage/AddMessagesToCache"),("atomic move between pools","redis scripts / memory cache lock"),("timeout, unlock and recovery housekeeping",H)],
 [("primary pool","ids deliverable now","cache"),("processing and lock pools","ids in flight or locked","cache"),("messages collection","the durable messages","storage")],["Pull/Add/Ack/Nack/GetById responses"],seam)
p("C02","A delivered message is exclusive until ack, nack or its deadline",
 "After a pull hands a message out, no pull hands the same message out again before its processing deadline (the one given in the pull, 5 minutes by default) unless the message has meanwhile been acked, nacked or removed and added again, or the cache lost its data. Two concurrent pulls never both receive the same availability of a message, and one response never contains the same message twice.",
 ["schedules","fault_sequences","histories"],"all interleavings of concurrent pulls, acks, nacks, adds, removals, timeouts, unlocks and recovery passes on several processes, with lost replies and automatic retries",
 "Tests pull sequentially from one client; double delivery needs overlapping pulls, timeouts, re-adds and retried commands.",
 [Q,RC,RS,MC,H],[("pull moves ids atomically to the processing pool",RS),("Add skips ids present in any pool",RS+", "+MC),("deadline stored with the in-flight id",RC+", "+MC)],
 [("processing pool","in-flight ids with deadline","cache")],["Pull responses with time of invocation and return"],seam)
p("C03","Pull serves the best priorities first, up to the amount asked",
 "When nothing else runs concurrently, a pull of N (1 if N<=0, at most 1000) returns exactly min(N, number of deliverable messages) messages, and they are the ones with the lowest scores among the deliverable messages of that queue. The response lists them in ascending order of the score it reports.",
 ["histories","inputs"],"every history of adds, acks, nacks, locks, timeouts, removals and pulls, with every distribution of scores including ties",
 "Tests use a few hand-written scores and fresh messages; priority after nack, timeout, unlock, recovery and update comes from different code paths that each must leave the right score.",
 [S,Q,RC,RS,MC],[("sorted sets / ordered list",RS+", "+MC),("amount clamp",S)],[("score of a deliverable message","its priority","cache")],["Pull responses"],seam)
p("C04","Score filters neither leak nor hide messages",
 "A pull with a minimum and/or maximum score returns only messages whose priority lies in the given inclusive range (a value of 0 means no bound, values outside the accepted range are capped, the deprecated score_filter means a maximum of now minus the filter), and if fewer than the requested amount come back then no other deliverable message of the queue is in the range. Messages outside the range stay deliverable with unchanged priority.",
 ["histories","inputs","schedules"],"every filter and every content of the queue reached by any history, including out-of-range messages ahead of in-range ones",
 "Tests filter small queues where matching messages are at the front.",
 [S,SC,MC,RC,RS],[("filter normalisation",SC),("range query",RS),("filtered-out handling",MC)],[],["Pull responses"],seam)
p("C05","Unacknowledged deliveries time out on time and become first",
 "A message that was pulled and neither acked, nacked nor removed is not deliverable before its deadline and becomes deliverable again by the first housekeeping timeout passes after it, at the highest priority (score 0), however many messages time out together and whichever queues or processes they belong to.",
 ["histories","schedules","fault_sequences"],"all deadlines (default and per pull), all numbers of simultaneous timeouts, passes interrupted by crashes or failed cache calls",
 "Existing tests mock the cache or use one message with a short deadline; batch limits, several queues and process restarts are not reached.",
 [H,Q,RC,RS,MC,DT],[("deadline in processing pool",RC+", "+MC),("timeout pass",H)],[("processing pool","in-flight ids with deadline","cache")],["Pull responses over simulated time"],seam)
p("C06","A lock holds for its time and then releases to the right priority",
 "A message acked or nacked with a lock is not deliverable before the lock time has elapsed and is deliverable after the first unlock passes following it, with the requested score if one was given, otherwise the time of unlock for an ack and score 0 for a nack. This holds for any number of messages locked in any number of queues.",
 ["histories","schedules","fault_sequences"],"all lock durations, scores, numbers of locked messages and queues, with unlock passes interrupted or run by several processes",
 "Tests unlock one or a few messages of one queue.",
 [H,Q,S,RC,RS,MC],[("lock pools with release time and score",RS+", "+MC),("unlock pass",H)],[("lock pools","locked ids with release time","cache"),("lock score sets","score to apply on release","cache")],["Pull responses over simulated time"],seam)
p("C07","Ack and nack act only on messages out for processing",
 "While the cache keeps its data, ack and nack answer success exactly when the message was out for processing at that moment; otherwise they answer success=false (never success) and do not change whether, when or with which priority the message will be delivered. Of several concurrent acks or nacks of one delivery at most one answers success.",
 ["schedules","histories"],"all orders and overlaps of ack, nack, timeout, pull, removal and re-add on the same message",
 "Tests ack once after a pull; double acks, acks after timeout, acks of locked or never pulled messages and racing acks are not combined.",
 [Q,S,RC,RS,MC],[("remove-from-processing then move script",RS),("removeEntry result",MC)],[("processing pool","in-flight ids","cache")],["Ack/Nack responses, following Pulls"],seam)
p("C08","A removed message is gone",
 "After a Remove (or an ack/nack asking for removal) has answered successfully and until the message is added again, no pull delivers it, GetById does not find it and Count does not count it, whatever state it was in: deliverable, out for processing, locked, or absent from the cache. Removing touches only the listed ids of that queue, and on an idle system the response counts what was really removed.",
 ["schedules","crash_points","fault_sequences","histories"],"every state of the message at removal, concurrent pulls, timeouts, unlocks and recovery, retried removals after partial failures, id lists larger than any internal batch",
 "Tests remove deliverable messages from one layer; remnants in lock, score or processing structures or re-insertion by housekeeping show up only later.",
 [Q,S,RC,RS,MC,MG,MS],[("removal from storage then all cache pools",Q),("remove script over every pool",RS),("missing-in-storage cleanup on pull",Q)],[],["Pull/GetById/Count/Remove responses"],seam)
p("C09","Add is an idempotent upsert that keeps the message's place",
 "A message is identified by its id and queue: adding new ones reports them as created, adding existing ones reports them as updated (an update that changes nothing may go uncounted) and never creates a second copy. Updating replaces the content given in the request but changes neither priority, nor in-flight or lock state, nor diagnostics, so it neither makes an in-flight or locked message deliverable nor disturbs a deliverable one.",
 ["histories","schedules","inputs"],"all sequences and overlaps of adds (duplicates inside one request included) with every state of the message",
 "Tests add the same message twice while it is idle in one layer.",
 [S,Q,MG,MS,RC,RS,MC],[("upsert with set-on-insert",MG),("insert only if in no pool",RS+", "+MC)],[],["Add response, Pull/GetById/Count"],seam)
p("C10","Expiry removes exactly the expired messages",
 "A message whose time to live has passed is removed by the housekeeping that follows, from every place, at the latest after enough passes to cover all expired ones. A message that is timeless or whose time to live has not yet passed (including one extended by a later add) is never removed by expiry.",
 ["histories","schedules","fault_sequences"],"all TTLs, mixes of timeless and expiring messages over many queues, passes that fail half way, several processes",
 "Tests use mocks and a fixed date; no test advances time over a running system with mixed TTLs or extends a TTL while a sweep runs.",
 [H,S,Q,MG,MS],[("expiry date computed at Add",S),("TTL pass",H)],[("expiry date","moment the message stops being valid","storage")],["Count/GetById/Pull over simulated time"],seam)
p("C11","The size limit evicts the excess and nothing more",
 "For a queue with a positive max_elements, housekeeping removes just enough messages to bring the queue down to the limit: those closest to expiry first. Queues at or below their limit, without a limit, or whose limit was removed with -1 lose nothing, and other queues are unaffected.",
 ["histories","schedules","configurations","fault_sequences"],"all contents, limits and changes of limits; eviction passes interleaved with traffic and failing part way",
 "Tests check the calls made to mocks; which messages survive is never observed.",
 [H,CF,Q,MG,MS],[("eviction pass",H),("expiry-ordered find",MG+", "+MS)],[("max_elements","limit of a queue","queue configuration collection")],["Count/GetById/Pull after maintenance"],seam)
p("C12","Losing the cache loses no message: recovery rebuilds it completely",
 "When the cache starts empty or loses all its data, housekeeping on any number of processes rebuilds it so that every stored message becomes deliverable again, with its stored score (bounded to the accepted range), whatever the number of messages and whatever failures interrupt the rebuilding. Recovery terminates, after which expiry and size-limit maintenance run again, and it neither duplicates messages nor resurrects removed ones.",
 ["crash_points","fault_sequences","histories","schedules"],"cache loss at any instant, crashes and failed calls at any point of a recovery pass, concurrent recovery by several processes, more stored messages than one pass handles, traffic during recovery",
 "Tests run single recovery passes against mocks.",
 [H,Q,RC,MC,MG,MS],[("recovery keys in the cache",H),("batched copy ordered by internal id",H)],[("recovery status keys","progress of the rebuild","cache")],["Pull/Count after recovery, effect of TTL and eviction"],seam)
p("C13","Queues and ids are isolated from each other",
 "An operation on one queue never changes or reveals messages of another queue, even when names or ids share prefixes, contain separators, glob characters, spaces, unicode or the words used internally for pools; messages with the same id in different queues are independent. A queue whose name the deployment cannot handle is refused without affecting any other queue.",
 ["inputs","histories","fault_sequences"],"all queue names and ids, in all combinations, under all operations and housekeeping",
 "Tests use plain names such as 'queue'.",
 [RC,MC,MS,MG,H,"internal/queue/utils/glob_pattern.go",ME],[("key construction and parsing",RC),("document key",MS),("pattern listing",RC+", "+MC)],[],["all responses"],seam)
p("C14","A sharded cache and a shared Redis behave like a private single one",
 "With a Redis Cluster as cache every queue, on whichever shard its data lives, gets the same service and housekeeping (timeouts, unlocks, recovery, removal) as on a single node. A Deckard deployment touches only its own key namespace: other data on the same Redis, including another Deckard with a different prefix, is never read, changed or deleted.",
 ["configurations","histories","fault_sequences"],"all distributions of queues over shards, slot redirections, failure of single shards, foreign keys on the same server",
 "Cluster tests need a live cluster and are skipped; nothing observes foreign keys.",
 [RC,"internal/config/cache.go","docs/redis-cluster-configuration.md"],[("hash-tagged keys",RC),("per-master scan",RC),("prefix resolution",RC)],[("key namespace","prefix of all keys","Redis")],["responses, and the simulated Redis' key space"],seam)
p("C15","Flush empties memory deployments and refuses everywhere else",
 "Flush answers success and leaves the system empty (no message is counted, found or delivered, no queue configuration remains) only when both cache and storage are in memory. In every other deployment it answers success=false and changes nothing.",
 ["configurations","schedules","histories"],"all four combinations of cache and storage, flush at any moment of any history, concurrent with traffic",
 "Tests flush one layer or a mock.",
 [S,Q,MC,MS,MN],[("memory-instance guard",S),("flush of cache then storage",Q)],[],["Flush response, all later responses"],seam)
p("C16","Diagnostics count every ack and nack exactly",
 "The diagnostics returned with a pulled message equal the number of acks and nacks requested for it, while it was stored, so far and since the last opposite one, and usage by concurrent consumers loses no count. Updating a message with Add keeps them; removing and re-adding it starts from zero.",
 ["schedules","histories"],"all interleavings of acks and nacks on the same and different messages from several processes",
 "Tests ack and nack sequentially a few times on one engine.",
 [MG,MS,S],[("increment operators",MG),("locked counters",MS)],[("diagnostics","ack/nack counters","storage")],["Pull responses"],seam)
p("C17","The last acknowledged queue configuration wins",
 "After EditQueue has answered success with a non-zero max_elements, the queue's stored configuration is that value (none for a negative one) until the next edit, every process reports it within ten minutes and maintenance enforces it. An edit with 0 changes nothing, and edits of one queue never affect another.",
 ["schedules","histories","fault_sequences"],"all interleavings of edits and reads on several processes with independent local caches, and failures of storage",
 "Tests use a mocked store and a single process; stale local caches need at least two writers or an overlapping read.",
 [CF,S,MG,MS,H],[("local cache with expiry",CF),("upsert of configuration",MG)],[("local configuration cache","recently read configurations","each process"),("max_elements","limit of a queue","storage")],["GetQueue over time, effect of eviction"],seam)
p("C18","Messages come back exactly as they were stored",
 "Payload, string payload, metadata, description, breakpoint, id and queue of a message are returned byte for byte as last set by a successful Add (or ack, for the breakpoint), by pulls and by GetById, regardless of delivery state, recovery, retries and other messages handled at the same time. A nack does not change the content.",
 ["inputs","histories","schedules"],"all contents including empty, binary, unicode and large ones, updated at any time",
 "Tests store tiny ASCII contents once.",
 [S,MG,MS,ME],[("field mapping request->message->response",S),("document encoding",MG)],[],["Pull/GetById responses"],seam)
p("C19","Every audited event reaches the audit sink once",
 "With auditing enabled, every ack, nack, timeout, unlock, removal, cache insertion and missing-in-storage event is sent to Elasticsearch exactly once with the right id, queue, prefix, signal and time, and the reason, breakpoint and lock of the request (for a removal, an unlock or a recovered message what caused it), in batches, at the latest five minutes after it happened if the sink accepts it. An unavailable sink or a shutdown neither crashes nor blocks message traffic, and an orderly shutdown sends what is still buffered.",
 ["schedules","crash_points","fault_sequences"],"all arrival patterns relative to the batch size and flush timer, sink failures, shutdown at any moment with tasks still producing events",
 "Tests send a handful of entries through a stub.",
 [AU,Q,H,SH],[("buffered channel and batching sender",AU)],[("entry buffer","events not yet sent","process")],["requests received by the simulated Elasticsearch"],seam)
p("C20","Shutdown is graceful, complete and bounded",
 "On a termination signal the process stops taking requests, lets running requests finish, lets a running recovery finish its pass before cancelling anything, starts no further maintenance, and exits once running tasks are done, without panic or deadlock, whenever the signal arrives. While running, each maintenance task runs repeatedly with its configured delay and recovery, eviction and expiry never run at the same time in one process.",
 ["schedules","crash_points","fault_sequences"],"every instant of the signal relative to requests and each maintenance task, with slow or failing dependencies",
 "The shutdown tests check channels closing on an idle process.",
 [SH,MN,H,AU],[("wait groups and Started channel",SH),("task scheduler and lock",MN)],[("Started/Finished","shutdown phase","process")],["process lifetime, order of simulated dependency calls, client responses"],seam)
p("C21","The in-memory engine is safe under concurrency",
 "With in-memory cache and storage, any mix of concurrent requests and housekeeping completes without panic, deadlock or unsynchronised access to shared data, and a message value handed to a caller is not changed afterwards by other requests.",
 ["schedules"],"all interleavings of all operations from several clients and every housekeeping task",
 "Existing tests are sequential and run without the race detector on these packages.",
 [MC,MS,CF,MM],[("cache mutex",MC),("storage read/write lock",MS)],[("docs/configurations maps","all messages and settings","storage"),("pools","delivery state","cache")],["panics, deadlock detection, race reports, responses"],seam)
p("C22","Count and GetById tell the truth about what is stored",
 "On an idle system Count of a queue equals the number of its messages that were added and not removed, and GetById finds a message exactly when it is stored and unexpired or not yet swept, with its current content; neither call changes any state. Under concurrency each answer is one that some order of the overlapping operations explains.",
 ["histories","schedules"],"all histories over several queues, all overlaps",
 "Tests count freshly inserted messages of one layer.",
 [S,Q,MG,MS],[("count with filter",MG+", "+MS)],[],["Count/GetById responses"],seam)
p("C23","Every message carries the priority the rules give it",
 "A new message gets the requested score or, if 0, the current time in milliseconds; an ack sets the requested score or, if 0, the current time minus score_subtract; a nack sets the requested score or, if 0, the minimum; a timeout sets the minimum. Whatever a client sends, the resulting priority always stays within 0 and 9007199254740992, negative requests becoming 0.",
 ["inputs","histories"],"all scores including negative, zero, huge and fractional ones, in every operation with and without lock, at all times",
 "Tests check single conversions; the priority that later pulls use after lock, recovery or timeout is not compared with the rule.",
 [SC,S,Q,RC,RS,MC],[("score rules",SC+", "+S)],[("score","priority of a message","cache and storage")],["Pull responses: order, filters and reported score"],seam)
p("C24","A success answer is never false, and a failed request can be retried",
 "If a request answers successfully its effect has happened, even if a dependency failed or lost replies meanwhile; if a dependency failed so that the effect may be missing, the client gets an error. After any failure of Add, Remove, Ack or Nack, repeating the request once the dependency works again brings the system into the state the request asks for, and no failure of one request damages other messages.",
 ["fault_sequences","crash_points"],"every position of every failing, timed-out or half-applied dependency call inside every operation",
 "Tests inject one error per mocked call and look only at the returned error.",
 [Q,S,RC,MG],[("error propagation",Q+", "+S),("unordered bulk upsert",MG)],[],["responses and state after retry"],seam)
p("C25","Housekeeping of one queue never starves the others",
 "A failure while maintaining one queue (timeouts, unlocks, expiry, eviction), or a temporarily failing dependency, does not stop maintenance of other queues in that pass or any queue in later passes: once calls succeed again every overdue timeout, unlock, expiry and eviction happens within a bounded number of passes.",
 ["fault_sequences","histories","configurations"],"all subsets of failing queues and calls, all numbers of queues and backlog sizes",
 "Tests fail a single mocked call and check the returned error.",
 [H,MN,RC,MC],[("per-queue loops that continue on error",H),("periodic scheduling",MN)],[],["Pull/Count over simulated time"],seam)
p("C26","Replica lag never makes a message disappear",
 "With a replicated MongoDB whose secondaries lag behind, a pull returns every message it takes from the cache that the primary still stores, and a lagging or failing secondary never leads to a stored message being dropped from delivery.",
 ["fault_sequences","schedules"],"all lags, all choices of replica for each read, primary briefly unavailable",
 "Tests run on a single node.",
 [Q,MG],[("second lookup on the primary for missing ids",Q+", "+MG)],[("primary and secondary read clients","read preferences","storage")],["Pull responses"],seam)
p("C27","Request and backlog size never change the outcome",
 "Any operation on many ids or messages at once (adding, removing, pulling, timing out, unlocking, expiring, evicting, recovering) has the same total effect as the same operations in small pieces: nothing is skipped, repeated or left behind at internal batch boundaries.",
 ["inputs","histories"],"all batch sizes around and far above the internal limits (100, 1000, 2000, 4000, 10000)",
 "Tests use at most a few messages per call, or mocks.",
 [RC,RS,MG,H,Q],[("partitioned commands",RC),("chunked deletes",MG),("limited passes",H)],[],["responses and final state"],seam)
p("C28","Start-up waits for its dependencies as configured",
 "A process whose cache or storage is not reachable at start retries with the configured delay up to the configured number of attempts, starts serving as soon as the dependency answers within those attempts, and otherwise fails with an error after them; it never hangs, never retries when retrying is disabled, and stops waiting when cancelled.",
 ["fault_sequences","schedules","configurations"],"all outage lengths and kinds at start, all retry settings, cancellation at any moment",
 "Tests cover a refused connection once, with real waiting.",
 [RC,MG,"internal/config/cache.go","internal/config/storage.go"],[("connection retry loops",RC+", "+MG)],[],["result and simulated time of start-up, connection attempts seen"],seam)
p("C29","Operational metrics agree with the traffic",
 "The exported per-queue-prefix totals equal the stored messages at the last metrics pass (0 for emptied queues), and the counters of acks, nacks, timeouts, unlocks and removals grow by exactly the number of such events that happened.",
 ["histories","schedules"],"all histories over several queues and prefixes",
 "Metric tests check registration only.",
 [H,Q,MX,MM],[("metrics pass",H),("counter updates",Q+", "+H)],[("metrics map","last computed totals","process")],["metric exporter"],seam)
p("C30","The endpoint serves exactly the clients its configuration admits",
 "With server certificates configured, the gRPC endpoint is served over TLS only, presenting the certificate that fits the requested name, and to exactly the clients which the configured client authentication admits (any, with any certificate, with a valid one if given, only with a valid one of any configured authority); without, it is served in plaintext. A certificate, key or authority file that is missing, damaged or does not match, or an unknown authentication type, makes the start fail instead of serving with less protection. Requests and answers larger than the configured sizes are refused without effect and smaller ones served. Connections are ended in time by the configured idle, age and keepalive limits, never earlier, also when their client has gone silent. The health check answers serving while the process serves.",
 ["configurations","inputs","fault_sequences"],"all combinations of certificates, keys, authorities, authentication types and limits, all states of the files, all kinds of clients, silent ones included",
 "Tests dial a few hand-made combinations of good files; a damaged file, a mismatched pair, a second authority, a limit hit exactly or a client that goes silent is not tried, and connection limits need simulated time.",
 [S,"internal/config/service.go"],[("transport credentials, keepalive and size options of the server",S)],[],["responses, connections and start-up result seen by clients"],seam)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
schema=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,schema)
print(len(P))
