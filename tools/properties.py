import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}})
p("P01","Reported blocks are real blocks with their true height, score and generator",
 "Every block the API reports (leash, head, fork head, last common block) is a block some peer has really sent or announced, and it is reported with exactly that block's ID, height, cumulative score, timestamp and generator. The generators report of a peer's fork counts exactly the generators of the last N blocks of that peer's chain. This holds whatever order blocks, key blocks and micro-blocks arrive in, from however many peers at once, and across restarts.",
 ["schedules","histories","fault_sequences","crash_points"],"every order and interleaving of block deliveries by any set of peers, every restart and network fault in between",
 "The unit tests build a handful of small fixed chains in one goroutine with a healthy store; interleaved deliveries from several peers, micro-block/key-block races and restarts are never run.",
 ["chains/linkage.go","chains/storage.go","distributor.go","api/api.go"],
 [("blocks are stored once with height and score computed from the stored parent","chains/linkage.go, chains/storage.go"),("reports read a database snapshot","chains/linkage.go"),("generators are collected along parent links","chains/linkage.go")],
 ["GET /api/leashes","GET /api/heads","GET /api/forks","GET /api/fork/{address}","GET /api/fork/{address}/generators/{blocks}"],
 [("block record","id, height, score, parent, timestamp, generator","chains/storage.go")])
p("P02","Fork reports partition the peers and measure every fork correctly",
 "The forks report groups all leashed peers by block, every peer exactly once, ordered by score and then by number of peers, marks exactly the best-scored one as longest, and gives for each the true last common block with the longest chain and the true length since then. The active-forks report does the same for exactly the connected peers (or an empty list), the filters restrict reports to exactly the named peers, a single peer's fork report agrees with them, and the status counts agree with them.",
 ["histories","schedules","inputs"],"every block tree, assignment of peers to blocks, set of connected peers and filter, reached through any history of deliveries, disconnects and restarts",
 "Tests compare a few hand-made forks; the last common block search, the grouping under equal scores, empty sets and filters are functions of unboundedly many trees, and 'connected' changes concurrently.",
 ["chains/linkage.go","chains/entities.go","api/api.go"],
 [("last common ancestor search over parent links","chains/linkage.go"),("fork statistics by leash","chains/linkage.go"),("active peers come from the registry's connections","api/api.go")],
 ["GET /api/forks","GET /api/active-forks","GET /api/fork/{address}","GET /api/leashes","GET /api/status"])
p("P03","A peer's leash is the block that peer itself last delivered",
 "Every peer has at most one leash, it is always a block that this very peer has sent or announced, and once everything a peer has sent has been processed its leash is the last of its blocks that could be attached to the known tree (a block with an unknown parent changes nothing). Activity of other peers, disconnections, late answers and restarts never move a peer's leash.",
 ["schedules","histories","fault_sequences","crash_points"],"every interleaving of block, micro-block and score messages from all peers with loading turns, timeouts, reconnects and restarts",
 "The tests move leashes with a single caller; mixing up peers, regressing a leash after a timeout, or losing an update needs concurrent peers, timeouts and crashes.",
 ["chains/linkage.go","chains/storage.go","distributor.go","loading/loader.go","loading/peer_loader.go"],
 [("leash is written after the block","chains/linkage.go"),("blocks are dispatched with the sender's address","distributor.go"),("loader ignores blocks of other peers","loading/loader.go")],
 ["GET /api/leashes","GET /api/forks","GET /api/fork/{address}"],[("leash","peer address -> block number","chains/storage.go")])
p("P04","Heads are exactly the tips of the stored tree",
 "The heads report lists every tip of the known block tree exactly once under a stable, unique number: no head has a known descendant, every known tip is there, a head only ever moves to a block that extends or replaces it (key block over micro-blocks of the same reference), and head numbers are never reused.",
 ["histories","schedules","crash_points"],"every order of block and micro-block deliveries by any peers, and every crash or restart between them",
 "Tests add blocks in a few fixed orders; head bookkeeping depends on the whole arrival history and on which batch of writes survived a crash.",
 ["chains/linkage.go","chains/storage.go","chains/storage_entities.go"],
 [("head moves when its block is extended, else a new head is created","chains/linkage.go"),("block, link and head are written in one batch","chains/storage.go")],
 ["GET /api/heads"],[("heads","head number -> block number","chains/storage.go")])
p("P05","Stored knowledge survives every crash and restart consistently",
 "After the process is killed or loses power at any point it starts again by itself and its blocks, heads, leashes and peers form a consistent state that equals a prefix of what had been accepted. After a kill or an orderly stop nothing that had been reported is lost or changed: leashes, forks, heads, peers, their states, versions and scores are reported as before.",
 ["crash_points","fault_sequences","histories"],"every crash point (between any two storage operations, power loss with torn or lost unsynced writes) in every workload, and repeated crashes",
 "No test kills the process or loses writes; the number of crash points in the write path is unbounded.",
 ["chains/storage.go","chains/linkage.go","peers/storage.go","forkdetector.go"],
 [("write batches","chains/storage.go"),("counters are recovered from the database on start","chains/storage.go"),("registry keeps peers in its own database","peers/storage.go")],
 ["all GET /api/* reports before and after a restart"])
p("P06","After faults stop every reachable peer is connected and tracked to its tip",
 "Once network, disk and process faults stop, within a bounded time every honest reachable peer is connected, and every peer with a better score than its leash is loaded until its leash is its tip. No sequence of faults, peer failures or misbehaviour leaves loading or connecting stuck for good.",
 ["fault_sequences","schedules","histories"],"every finite sequence of faults (partitions, resets, silent or slow peers, disk errors, crashes, clock jumps) followed by quiet",
 "Progress after arbitrary faults is a liveness statement about unbounded executions; the tests exercise the loader's state machine only along its success and one timeout path.",
 ["loading/loader.go","loading/peer_loader.go","loading/queue.go","respawn.go","distributor.go","peers/registry.go"],
 [("periodic synchronisation with a lagging peer","loading/loader.go"),("turn timeout and restart","loading/peer_loader.go"),("periodic reconnection","respawn.go")],
 ["GET /api/connections","GET /api/leashes"])
p("P07","The detector speaks the synchronisation protocol correctly and only on need",
 "A peer is asked for block IDs only when its announced score exceeds the score of its leash; a request names up to 100 known ancestors on one path, newest first; blocks are requested in order, without duplicates, only for IDs that this very peer has just answered with and that are not stored yet. At most one peer is being loaded at a time, and no other or malformed message is ever sent.",
 ["histories","schedules","fault_sequences"],"every exchange with every peer in every run, including peers that answer late, partially, wrongly or twice",
 "Tests check a few transitions with a mock peer; the protocol rules must hold for each message under arbitrary answers and interleavings.",
 ["loading/peer_loader.go","loading/loader.go","loading/queue.go","chains/linkage.go"],
 [("IDs of the last 100 ancestors of the leash","chains/linkage.go"),("queue drops known IDs and keeps order","loading/queue.go"),("single current peer","loading/loader.go")],
 ["messages on the wire"])
p("P08","A slow or failing peer loses its turn, not its progress",
 "A peer that makes no progress for 30 seconds of its turn loses it so that other lagging peers get theirs, no peer is cut off earlier, and the blocks delivered before the end of the turn are kept so that its next turn continues from there. After ten failures in a row (not before) its loading restarts from its last common block with the longest chain; success resets the count.",
 ["schedules","fault_sequences","histories"],"every timing of answers relative to timers, every sequence of failing, slow and good turns of several peers",
 "The tests step the state machine by hand with a fake clock for one peer; counts across turns, several peers and real timer interleavings are not covered.",
 ["loading/loader.go","loading/peer_loader.go","loading/queue.go"],
 [("30 s timeout checked every second","loading/peer_loader.go"),("failure counter with threshold 10","loading/loader.go"),("partial application of the queue on timeout","loading/peer_loader.go")],
 ["messages on the wire","GET /api/leashes"])
p("P09","Outbound connections go to known, due, unconnected, non-hostile addresses only",
 "The detector dials only addresses it was given or told of, never itself, never a hostile peer, never port zero, never a peer with an open connection or a pending attempt, and not within ten minutes after the end or failure of the previous connection to it. Every known address that is due is dialed within a bounded time, again and again.",
 ["schedules","histories","fault_sequences"],"every history of connects, failures, inbound sessions, restarts, clock jumps and gossip",
 "The dialing rules involve the clock, concurrent inbound connections and persisted attempts; no test runs the respawn loop.",
 ["respawn.go","peers/registry.go","connection_manager.go","distributor.go"],
 [("list of available addresses with pending marks","peers/registry.go"),("next attempt delay of 10 minutes","peers/registry.go"),("respawn every 10 s","respawn.go")],
 ["connection attempts on the network"])
p("P10","Peers of another network or version are refused and stay hostile for ever",
 "A peer whose handshake names another network or a version two or more minor versions away from the negotiated one (or another major version) is marked hostile, disconnected, and from then on never again admitted, dialed, greeted, listed as connected or told to others, across restarts. A peer that follows the rules is never marked hostile, and a connected peer is reported with the name, nonce, version and port it declared last. The detector introduces itself with the application name of its network, its configured name and declared address, and one nonce per run.",
 ["inputs","schedules","histories","crash_points"],"every handshake content, simultaneous inbound and outbound connections of the same peer, restarts",
 "Tests register a few peers one by one; admission must hold for every handshake and interleaving, and permanence over unbounded histories with crashes.",
 ["peers/registry.go","peers/peer.go","connection_manager.go","distributor.go","listener.go"],
 [("admission rules on registration","peers/registry.go"),("hostile state in the database","peers/storage.go"),("no version is suggested to a hostile peer","peers/registry.go")],
 ["GET /api/peers/all","GET /api/connections","connections and handshakes on the network"])
p("P11","The connections report tells who is connected right now",
 "After a short reaction time /connections lists exactly the peers with an open established connection, each once: a closed, failed, replaced or refused connection disappears, a new one appears, and a peer that reconnects or connects in both directions stays listed as long as one connection works. No connection is left open that the detector does not track.",
 ["schedules","fault_sequences","histories"],"every interleaving of connects, replacements, failures, refusals and storage errors",
 "Connection bookkeeping is spread over goroutines of each connection; tests never run two connections of one peer concurrently.",
 ["peers/registry.go","distributor.go","service.go","listener.go","connection_manager.go"],
 [("connections map guarded by a mutex","peers/registry.go"),("connected/failed notifications","distributor.go")],
 ["GET /api/connections","GET /api/status","open connections on the network"])
p("P12","Shutdown always completes, quickly and cleanly",
 "From any moment on, SIGTERM or SIGINT ends the process within a bounded time with exit code 0: listening stops, requests in progress are answered, all connections are closed, nothing crashes or hangs, and everything reported before is still there after the next start. The process never ends by itself otherwise.",
 ["schedules","crash_points","fault_sequences"],"a termination signal at every point of every workload, during loading, with blocked peers, full queues, open API requests, failed storage and failed start",
 "No test starts and stops the program; shutdown races depend on which goroutine is blocked where when the signal arrives.",
 ["forkdetector.go","api/api.go","listener.go","respawn.go","distributor.go","loading/loader.go","service.go"],
 [("components are stopped in order with contexts","forkdetector.go"),("graceful HTTP shutdown","api/api.go")],
 ["process exit","network connections after the signal"])
p("P13","No peer can crash, block or corrupt the detector",
 "Whatever bytes, handshakes, message sequences, oversized, truncated, unsolicited or contradictory messages peers send, the process keeps running, the API keeps answering, honest peers keep being connected and tracked, and nothing untrue is reported about them.",
 ["inputs","schedules","histories"],"every byte sequence and message order from any number of misbehaving peers, mixed with honest ones",
 "Hostile input space and its interleavings with honest traffic are unbounded; no test sends malformed traffic.",
 ["distributor.go","connection_manager.go","chains/linkage.go","loading/peer_loader.go","peers/registry.go","listener.go"],
 [("message filter","connection_manager.go"),("validation in the distributor and the loader","distributor.go, loading/"),("buffered queues","distributor.go")],
 ["process liveness","GET /api/*","messages on the wire"])
p("P14","The API always answers with valid, documented responses",
 "At any time while the process runs every endpoint answers in bounded time with valid JSON and the documented status: 200 for valid requests, 404 for unknown peers or routes, 400 for bad addresses, filters or counts, never 5xx while storage works, never a crash, for every request and every state of the tracker including an empty one, genesis-only leashes and equal scores.",
 ["inputs","schedules","histories"],"every path, parameter and moment, concurrently with loading, connecting, restarting and shutting down",
 "There is no API test; correctness depends on the state reached by arbitrary histories.",
 ["api/api.go","chains/linkage.go","peers/registry.go"],
 [("router and parameter validation","api/api.go"),("recoverer and error mapping","api/")],["HTTP responses"])
p("P15","Peer exchange: addresses are asked for every minute, learned and told truthfully",
 "Every connected peer is asked for its peers once a minute; every valid public IPv4 address told is remembered once and for ever (never loopback, IPv6 or the detector's own). A peer that asks is told exactly the peers that have been connected, never an unknown, hostile or duplicate one and with the ports they declared; the peers reports list every known address exactly once in order of name.",
 ["inputs","schedules","histories","crash_points"],"every content of peers messages, every moment of asking, all restarts",
 "Needs the whole node with timers and several peers; tests only cover the registry's append of a fixed list.",
 ["distributor.go","peers/registry.go","peers/storage.go","api/api.go"],
 [("one minute ping","distributor.go"),("filter on appended addresses","peers/registry.go"),("friendly peers as answer","distributor.go")],
 ["messages on the wire","GET /api/peers/all","GET /api/peers/friendly"])
p("P16","The announced score of a peer is recorded, reported and durable",
 "The score reported for a peer is always one that this peer announced, it becomes the latest announced one within a bounded time after the announcements stop, and it survives disconnection and restart. It decides whether the peer is loaded.",
 ["schedules","histories","crash_points"],"every interleaving of announcements by all peers with registration, loading and restarts",
 "Scores pass through queues and are read-modify-written together with other peer data; lost updates and mix-ups need concurrency.",
 ["distributor.go","peers/registry.go","peers/storage.go"],
 [("score message handling","distributor.go"),("peer record update under the registry's mutex","peers/registry.go")],
 ["GET /api/peers/all","GET /api/connections","messages on the wire"])
p("P17","Concurrent reports are consistent snapshots; updates are never lost",
 "While peers announce blocks concurrently, each API answer reflects for every peer a block between those processed before the request began and those sent before it ended, later answers never go back, one answer never mixes a peer's states, and after all activity every peer's last update is in effect. The block and peer stores behave as if operations took effect one at a time.",
 ["schedules"],"every interleaving of concurrent deliveries by several peers and concurrent API readers, at every synchronisation point",
 "Tests are single-threaded; the race detector cannot show lost updates or torn reads.",
 ["chains/linkage.go","chains/storage.go","peers/registry.go","distributor.go","api/api.go"],
 [("mutex around linkage updates","chains/linkage.go"),("database snapshots for reports","chains/linkage.go"),("registry mutex","peers/registry.go")],
 ["GET /api/leashes","GET /api/forks","GET /api/heads"])
p("P18","Version negotiation tries the configured versions in turn and remembers success",
 "For a peer never connected before, the first attempt offers the newest configured version and each further attempt the next older one, starting over after the oldest; once a peer has connected, every further handshake to it offers the version it connected with. The cycle continues across restarts, and inbound and outbound attempts share it.",
 ["histories","schedules","configurations","crash_points"],"every configuration of versions, every sequence of failing and succeeding attempts, restarts in between",
 "Tests cover single calls; the cycle is a property of the whole persisted attempt history.",
 ["peers/registry.go","peers/version_provider.go","connection_manager.go"],
 [("next version after the stored one","peers/registry.go"),("version stored with the peer","peers/storage.go")],
 ["handshakes on the network"])
p("P19","Storage failures are contained: no wrong data, no stuck component, full recovery",
 "When reads, writes, syncs or opening of the databases fail, the detector never reports or stores untrue data as a result: lists are not silently truncated, failing requests get an error status, and peers' states are not forgotten. It keeps serving or ends with a non-zero exit code, and once storage works again (after a restart if it ended or writes failed) everything recovers as if faults had never happened, apart from unacknowledged updates.",
 ["fault_sequences","crash_points"],"every placement of I/O errors, short and lost writes and full disks in every workload",
 "No test injects a storage error.",
 ["chains/storage.go","chains/linkage.go","peers/storage.go","peers/registry.go","loading/loader.go","respawn.go","forkdetector.go","api/api.go"],
 [("errors are returned to the callers","chains/storage.go, peers/storage.go"),("callers retry later or answer 500","loading/, respawn.go, api/")],
 ["GET /api/*","process exit","state after recovery"])
p("P20","What has ended leaves nothing behind",
 "However many connections, connection attempts, refused peers and API requests there have been and however each of them ended - closed, reset, refused, timed out, cut in the middle of a handshake, a message or an answer, duplicated - the program afterwards holds resources only for what is still open: the number of its goroutines stays within a small constant plus a few per open connection, every connection that the other side has ended is closed within minutes, and peers and users are served as before.",
 ["histories","fault_sequences","schedules"],"every sequence of sessions, refusals, failed attempts and requests, ending in any way at any point, in any number and concurrency",
 "A leak of one goroutine or connection per ended session passes every unit test; it shows only after hundreds of sessions of the same kind, and each way of ending is a path of its own.",
 ["connection_manager.go","listener.go","respawn.go","distributor.go","peers/registry.go","api/api.go"],
 [("refused and replaced connections are closed","peers/registry.go, connection_manager.go"),("failed sessions are unregistered and closed","distributor.go"),("one goroutine per accept and per dial","listener.go, respawn.go"),("read timeouts of the API server","api/api.go")],
 ["goroutines of the process (also reported by GET /api/status)","open connections at the network"])
p("P21","The program starts as configured or refuses to start",
 "Whatever the command line and the environment, a start ends in one of two ways. Either the program comes up as configured within a bounded time: the API answers on its address, the network server runs on its address exactly when a declared address is configured, peers are introduced to with the configured name and declared address, and everything stored before is there. Or, when something it was asked for cannot be done - an argument that cannot be parsed or used, a missing folder, an address that cannot be bound, a database in use - it ends by itself with a non-zero exit code and without having contacted peers and with everything stored before intact. It never crashes, never ignores a bad argument and never runs on with a part missing.",
 ["configurations","fault_sequences","histories"],"every command line and every combination of environment faults at start, in any sequence of starts on the same data",
 "There is no test of the command line or of a start; binding and opening fail only in an environment that tests do not produce, and they fail in background goroutines.",
 ["parameters.go","forkdetector.go","listener.go","api/api.go","peers/storage.go","chains/storage.go"],
 [("arguments are checked","parameters.go"),("failing to listen ends the program","listener.go, api/api.go"),("errors of opening databases are returned","forkdetector.go")],
 ["process exit code","GET /api/status","listening ports","handshakes on the network"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
