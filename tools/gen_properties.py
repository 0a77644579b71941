#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, run, commit both."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

TCP = "replies on a loopback TCP connection to the built server"
NOCMD = "No existing test executes a command: the suite only parses a handful of complete buffers and echoes one TCP message."

p("C01", "Replies do not depend on how request bytes are segmented or pipelined",
  "For any sequence of complete RESP array requests sent on one connection, the sequence of replies and the resulting dataset are the same however the byte stream is cut into TCP segments and however many requests are in flight before replies are read. No request is lost, duplicated, merged or reordered, including requests with empty arguments, arguments containing CR/LF and arguments larger than any internal buffer.",
  ["inputs", "schedules"], "all request sequences, all segmentations of their byte stream, all pipelining depths",
  "Tests feed each parser one complete request in one piece; segmentations and pipelines are a combinatorial space none of them enters.",
  ["server/resp.go", "server/server.go", "server/client.go"],
  [("incremental request parser", "server/resp.go processInputBuffer and the inline/bulk/multi-bulk parsers"), ("read buffer handling", "server/server.go readQueryFromClient; server/client.go reset/moveToNextLineInQueryBuffer")],
  [TCP])
p("C02", "No client byte stream can crash or wedge the server",
  "Whatever bytes a client sends (malformed framing, truncated requests, negative or huge lengths, out-of-range numeric arguments, unknown commands, empty lines), the server process keeps running and may at most answer with an error or close that one connection. It goes on serving every other connection, whose data is unchanged unless a well-formed write command changed it.",
  ["inputs"], "all byte streams a client can send, at any point of other clients' sessions",
  "Tests parse six well-formed buffers; hostile lengths, indices and truncations are outside them. " + NOCMD,
  ["server/resp.go", "server/command.go", "server/commandlist.go", "server/commandzset.go", "server/commandconnection.go", "datastruct/quicklist.go", "datastruct/skiplist.go"],
  [("parser validation of lengths", "server/resp.go"), ("arity and argument validation", "server/command.go processCommand and each handler"), ("range clamping", "datastruct/quicklist.go Range, datastruct/skiplist.go RangeByRank")],
  [TCP, "liveness of the server process", "a control connection's data"])
p("C03", "Exactly one well-formed reply per request; stored bytes come back unchanged",
  "Every executed request is answered by exactly one complete, well-formed RESP value, in request order, whatever bytes its arguments contain (CR, LF, NUL, non-UTF-8, empty, large), including when the answer is an error that quotes an argument. A key, value, field or member stored by a command is returned byte for byte identical by every command that reads it.",
  ["inputs"], "all commands with all argument byte strings",
  NOCMD + " Reply framing depends on every byte of every argument.",
  ["server/client.go", "server/resp.go", "server/command.go"],
  [("reply builders", "server/client.go addReply*"), ("argument extraction", "server/resp.go")],
  [TCP])
p("C04", "Replies reach slow readers complete, once and in order",
  "Reply bytes queued for a client are delivered completely, exactly once and in order, for any reply size, however slowly or in whatever chunks the client reads, and regardless of further requests arriving meanwhile, also when the client has ended its side of the connection behind its last request (shutdown of writing). A client that does not read its replies does not delay the replies of other clients.",
  ["schedules", "inputs"], "all reply sizes, read chunk sizes, read pauses and interleavings with further requests",
  "No test sends a reply through the server's write path at all; partial writes need replies larger than socket buffers and a paused reader.",
  ["server/server.go", "server/client.go", "ae/ae.go"],
  [("reply queue with partial-write offset", "server/server.go sendReplayToClient"), ("writable event registration", "server/client.go addReply")],
  [TCP])
p("C05", "Connections are isolated from each other and released when closed",
  "Opening, closing, half-closing or resetting a connection at any point (mid-request, with replies pending) never changes another connection's selected database, authentication, partially received input or replies. Once a connection is closed the server releases its descriptor, and every new connection starts from the initial state: database 0, unauthenticated, no buffered input.",
  ["histories", "schedules"], "all interleavings of open / request fragments / close / reset over several connections",
  "Tests open a single connection to a bare listener; connection lifecycles of the server itself are never exercised.",
  ["server/server.go", "server/client.go", "ae/ae.go"],
  [("per-client state", "server/client.go Client"), ("release of a client", "server/client.go free"), ("event registration keyed by descriptor", "ae/ae.go AddFileEvent/RemoveFileEvent")],
  [TCP, "descriptor count of the server process"])
p("C06", "With a password set, nothing but AUTH works before authentication",
  "When a password is configured, a connection that has not presented exactly that password gets an error for every command other than AUTH, and such a command neither reveals nor changes data. A failed AUTH leaves or makes the connection unauthenticated, authentication on one connection never extends to another, and without a configured password every command is allowed.",
  ["histories", "configurations"], "all command histories over several connections, all passwords and all password attempts",
  "No test configures a password or sends AUTH.",
  ["server/command.go", "server/commandconnection.go", "server/client.go"],
  [("authentication gate", "server/command.go processCommand"), ("AUTH", "server/commandconnection.go authCommand")],
  [TCP])
p("C07", "Databases are independent; SELECT affects only its own connection",
  "Each database chosen by SELECT n, 0 <= n < the configured number of databases (16 if not configured), is an independent keyspace: a command reads and changes only keys and deadlines of the database currently selected on its own connection. SELECT with an index outside that range or not an integer is refused with an error and leaves the selection unchanged.",
  ["histories", "configurations"], "all histories of SELECT and data commands on several connections, all database counts",
  NOCMD,
  ["server/commandconnection.go", "server/server.go", "database/database.go"],
  [("SELECT", "server/commandconnection.go selectCommand"), ("database table", "server/server.go NewServer")],
  [TCP])
p("C08", "String and key commands agree with a map",
  "For any history of SET, SETEX, DEL, GET, KEYS, RANDOMGET, TTL and EXPIRE over keys of all types, every reply equals that of a map from keys to values: GET returns the last value set or null, SET replaces a key of any type, DEL removes its keys and returns how many existed, KEYS returns exactly the live keys that match its pattern ('*' for all, otherwise a regular expression), and RANDOMGET returns a live key or null when there is none.",
  ["histories", "inputs"], "all command histories and keys, including enough keys to resize the key table many times",
  NOCMD,
  ["server/commandstring.go", "server/commandkey.go", "server/command.go", "datastruct/dict.go"],
  [("string and key handlers", "server/commandstring.go, server/commandkey.go"), ("key table", "datastruct/dict.go")],
  [TCP])
p("C09", "Hash commands agree with a map of maps",
  "For any history of HSET, HGET, HDEL, HEXISTS, HKEYS and HLEN, every reply equals that of a map from keys to maps from field to value: HSET returns the number of fields that are new and overwrites the others, HDEL the number removed, HKEYS each field exactly once. A hash whose last field is removed no longer exists as a key.",
  ["histories", "inputs"], "all histories of hash commands, including repeated fields in one command and hashes large enough to resize",
  NOCMD,
  ["server/commandhash.go", "datastruct/dict.go"],
  [("hash handlers", "server/commandhash.go")],
  [TCP])
p("C10", "List commands agree with a sequence",
  "For any history of LPUSH, RPUSH, LPOP, RPOP, LLEN, LINDEX and LRANGE on lists of any length, every reply equals that of a plain sequence: pushes add at the given end one element after the other, pops remove from the given end, LINDEX i and LRANGE a b with indices from the front (or LRANGE with indices from the end, -1 the last) return exactly the elements at those positions, an index past the end selects nothing or is cut at the end. A list whose last element is popped no longer exists as a key.",
  ["histories", "inputs"], "all histories, list lengths far beyond one internal page, all index pairs",
  NOCMD + " Page splits and second-half lookups depend on length and history.",
  ["server/commandlist.go", "datastruct/quicklist.go"],
  [("list handlers", "server/commandlist.go"), ("paged list", "datastruct/quicklist.go")],
  [TCP])
p("C11", "Set commands agree with mathematical sets",
  "For any history of SADD, SREM, SPOP, SCARD, SISMEMBER, SMEMBERS, SDIFF, SINTER and SUNION, every reply equals that of mathematical sets, a missing key being the empty set: SADD and SREM return how many members were added or removed, SPOP removes and returns some current member, SMEMBERS and the algebra commands return each member of the result exactly once and change nothing. A set whose last member is removed no longer exists as a key.",
  ["histories", "inputs"], "all histories over several keys, with missing and repeated keys and members, and sets large enough to resize",
  NOCMD,
  ["server/commandset.go", "datastruct/set.go", "datastruct/dict.go"],
  [("set handlers", "server/commandset.go"), ("set algebra", "datastruct/set.go")],
  [TCP])
p("C12", "Sorted-set commands agree with a score-ordered map",
  "For any history of ZADD, ZREM, ZREMRANGEBYRANK, ZREMRANGEBYSCORE, ZCARD, ZCOUNT, ZSCORE, ZRANGE and ZRANGEBYSCORE (with or without WITHSCORES), every reply equals that of a map from member to score listed by (score, member) ascending: ZADD returns the number of new members and updates the score of the others, ranges by non-negative rank or by inclusive score select exactly the right members in order, and removals remove exactly those and return their number. A sorted set whose last member is removed no longer exists as a key.",
  ["histories", "inputs"], "all histories, scores (negative, fractional, equal, infinite) and ranges, including score updates",
  NOCMD + " The unit tests of the sorted set never update a score and never range after a removal.",
  ["server/commandzset.go", "server/client.go", "datastruct/zset.go", "datastruct/skiplist.go"],
  [("sorted-set handlers", "server/commandzset.go"), ("member map plus skiplist", "datastruct/zset.go, datastruct/skiplist.go")],
  [TCP])
p("C13", "A command answered with an error changes nothing",
  "A command on a key of the wrong type, with a wrong number of arguments, an unknown name or an argument that is not the required integer or finite-or-infinite number, is answered with an error and leaves every key, type, value and deadline of the dataset exactly as it was; in particular a command with several elements is applied wholly or not at all. (A command that finds its key absent, or an operand it need not read to know the result, may answer accordingly without checking the remaining arguments.) Read commands never change the dataset, apart from dropping keys whose deadline has passed.",
  ["inputs", "histories"], "all commands times all key types times all malformed arguments at every argument position",
  NOCMD,
  ["server/command.go", "server/commandhash.go", "server/commandlist.go", "server/commandset.go", "server/commandzset.go", "server/commandkey.go", "server/commandstring.go"],
  [("type checks", "getHash/getQuickList/getSet/getZset and their IfExist variants"), ("argument parsing", "each handler")],
  [TCP])
p("C14", "A key is fully visible before its deadline and absent after it",
  "A key with a deadline from EXPIRE, EXPIREAT, SETEX or SET with EXAT is visible to every command before the deadline and absent to every command after it, whether or not anything touched it in between; a write to an expired key starts from an absent key with no deadline. TTL is -2 for an absent key, -1 without deadline, else the remaining seconds to within one; SET without EXAT clears the deadline, SETEX and EXPIRE replace it, other writes keep it, and setting a deadline on an absent key has no effect, also on a key created later.",
  ["histories", "inputs"], "all histories of writes, deadlines (past, near, far, extreme) and reads around the deadline",
  "No test sets a deadline. The outcome depends on when commands run relative to deadlines and to the background expiry cycle.",
  ["server/commandkey.go", "server/commandstring.go", "server/command.go", "server/server.go"],
  [("lazy expiry", "server/command.go expireIfNeeded and its callers"), ("background expiry", "server/server.go databasesCron"), ("deadline table", "database/database.go")],
  [TCP])
p("C15", "Commands of concurrent clients are atomic and linearizable",
  "However the commands of several concurrent connections interleave, there is one total order of all commands, consistent with real time and with each connection's own order, in which every reply is the one a sequential execution gives. A command with several keys or elements takes effect at once.",
  ["schedules", "histories"], "all interleavings of the commands of several concurrent connections",
  "No test runs commands, let alone concurrent ones.",
  ["server/server.go", "ae/ae.go", "server/command.go"],
  [("single-threaded command execution", "ae/ae.go Main, server/command.go call")],
  [TCP])
p("C16", "Restarting on the append-only file reproduces the dataset",
  "With appendonly on, stopping the server by SIGKILL, SIGTERM or SIGINT once all replies have been received and starting it again on the same file gives an identical dataset: every database, key, type, value, list order, score, membership and deadline (to within a second). This holds for any history of commands with arguments of any bytes and size, over any databases, and for any number of successive restarts.",
  ["histories", "inputs"], "all command histories interleaved with any number of restarts",
  "No test starts a server with an append-only file, writes one or loads one.",
  ["server/aof.go", "server/command.go", "server/server.go", "server/commandset.go"],
  [("feeding the log", "server/aof.go feedAppendOnlyFile"), ("loading the log", "server/aof.go loadAppendOnlyFile"), ("dirty counter decides what is logged", "server/command.go call")],
  [TCP + " before and after restart", "the append-only file"])
p("C17", "Rewriting the append-only file never changes what it restores",
  "After BGREWRITEAOF (or an automatic rewrite) completes, restarting on the resulting file gives exactly the dataset that was live, including every change made by any client before, during and after the rewrite, in every database, for every type and size of value. The rewrite itself never changes the live dataset or a reply.",
  ["histories", "schedules"], "all datasets, all histories of commands interleaved at any point with the phases of a rewrite",
  "No test runs a rewrite. Whether concurrent changes are lost or applied twice depends on the interleaving with the background writer.",
  ["server/aof.go", "database/database.go", "datastruct/dict.go", "server/server.go"],
  [("snapshot", "database/database.go DeepCopy"), ("dump of each type", "server/aof.go rewrite*Object"), ("difference buffer and switch", "server/aof.go feedAppendOnlyFile, aofRewriteDoneCallback")],
  [TCP + " before and after restart", "the append-only file"])
p("C18", "A crash at any moment loses no acknowledged write and tears no command",
  "If the server is killed at any instant and restarted on its append-only file, the dataset is the result of a prefix of the executed commands that contains every write whose reply a client had received; each multi-element command is present wholly or not at all. This holds with every appendfsync setting (the operating system surviving), and also while a rewrite is being started, is running or is being switched in.",
  ["crash_points", "histories"], "all kill instants during all workloads, with and without rewrites in progress",
  "No test kills or restarts a server.",
  ["server/aof.go", "server/server.go"],
  [("log written before replies are sent", "server/server.go beforeSleepProc, sendReplayToClient; server/aof.go flushAppendOnlyFile"), ("switch to the rewritten file", "server/aof.go aofRewriteDoneCallback")],
  [TCP + " before the kill and after restart"])
p("C19", "Log records reach the file, and disk per appendfsync, before replies are sent",
  "The log record of a write command has been written to the append-only file before its reply is sent, and with appendfsync=always it has also been fsynced before its reply is sent. With appendfsync=everysec every written record is fsynced within about a second even if no further command arrives; with appendfsync=no the server never fsyncs while serving commands. With appendfsync=always a rewritten file replaces the log only when all of it has been fsynced.",
  ["schedules", "configurations"], "all workloads, pipelining patterns and appendfsync settings",
  "No test observes the order of the server's system calls.",
  ["server/aof.go", "server/server.go"],
  [("flush before sleeping", "server/server.go beforeSleepProc"), ("fsync policy", "server/aof.go aofFileSync")],
  ["system-call trace of the server process started by the check"])
p("C20", "A torn tail of the append-only file costs only the torn command",
  "If the append-only file is cut at any byte offset (as a crash during an append leaves it), the server still starts and its dataset is exactly the result of the complete commands before the cut. Commands executed afterwards are logged so that later restarts reproduce them too.",
  ["crash_points", "inputs"], "all cut offsets of all logs, followed by any further history and restart",
  "No test loads an append-only file.",
  ["server/aof.go"],
  [("log loader", "server/aof.go loadAppendOnlyFile")],
  ["dataset after restart on a cut file", TCP])
p("C21", "Deadlines and expirations survive restarts and rewrites",
  "Deadlines are absolute: after any number of restarts and rewrites a key still expires at its original time (to within a second), a key whose deadline passed while the server was down is absent, and a key that had expired is never brought back. A key that was created again after its old one expired keeps exactly its new content, with no deadline unless it was given one.",
  ["histories", "crash_points"], "all histories of writes, deadlines, expirations, rewrites and restarts, with downtime across deadlines",
  "No test involves a deadline, a rewrite or a restart.",
  ["server/aof.go", "server/command.go", "server/commandkey.go", "server/server.go"],
  [("translation of relative to absolute deadlines", "server/aof.go feedAppendOnlyFile"), ("logging of expirations", "server/command.go expireIfNeeded, server/server.go databasesCron"), ("loading", "server/aof.go loadAppendOnlyFile")],
  [TCP + " after restart"])
p("C22", "The hash table agrees with a map under any operation sequence",
  "After any sequence of Set, Delete, Find, Get, GetRandomKey and iteration, at any stage of incremental resizing, the hash table holds exactly the entries of a map: Set reports whether the key is new, Delete of an absent key reports that, Size is the number of entries, GetRandomKey returns a present entry, and every present entry can be the one returned. An iteration returns every entry present from its start to its end exactly once, even if entries are added, looked up or the current entry is deleted while it runs.",
  ["histories", "inputs"], "all operation sequences, key distributions (also colliding hashes) and iterators open at any point",
  "Tests insert sequential keys and read them back; they never delete or iterate during a resize, nor use colliding hashes.",
  ["datastruct/dict.go"],
  [("incremental rehash", "datastruct/dict.go rehash, rehashStep"), ("iterators pausing the rehash", "datastruct/dict.go DictIterator")],
  ["exported API of package datastruct"],
  state=[dict(name="hashTables, rehashIndex", meaning="old and new table and progress of the resize", where="datastruct/dict.go")])
p("C23", "The paged list agrees with a slice under any operation sequence",
  "After any sequence of PushFront, PushBack, PopFront, PopBack, Insert, Remove, Get, Find and Range at any positions, the paged list holds exactly the elements of a slice in order; Get and Range return exactly the elements at the requested positions (negative Range bounds counting from the end), and forward and backward iteration visit every element once in order. Insert outside [0,len] and Remove or Get outside [0,len) report failure and change nothing.",
  ["histories", "inputs"], "all operation sequences on lists of zero to many pages, all positions",
  "Tests push at the back only, remove only at the front and read only from the start.",
  ["datastruct/quicklist.go"],
  [("page split and removal", "datastruct/quicklist.go Insert, Remove"), ("position lookup from either end", "datastruct/quicklist.go get")],
  ["exported API of package datastruct"])
p("C24", "The set type implements set algebra without changing its operands",
  "For any sets built by any sequence of Add and Delete, Contains, Size, Range and GetRandom (of a set that is not empty; any member can be the one returned) agree with a mathematical set, and Union, Intersect and Difference return exactly the mathematical result (also of a set with itself or with an empty set) as a new set, leaving both operands unchanged and independent of the result.",
  ["inputs", "histories"], "all pairs of sets and all histories that built them, at any stage of resizing",
  "Tests use two fixed ranges of 10000 keys and check presence only.",
  ["datastruct/set.go", "datastruct/dict.go"],
  [("algebra by iteration", "datastruct/set.go")],
  ["exported API of package datastruct"])
p("C25", "The skiplist agrees with a sorted sequence of (score, member)",
  "After any sequence of Insert, Delete, DeleteRangeByScore and DeleteRangeByRank of distinct members, the skiplist is the sequence of its (score, member) pairs in ascending order: length, rank of an element, element at a rank, ranges by rank or score in both directions, with limits, count, first and last in a score range all agree with that sequence. A delete removes and returns exactly the elements asked for, and nothing if there are none.",
  ["histories", "inputs"], "all operation sequences, scores (equal, negative, infinite), members (also empty) and bounds, and all random level choices",
  "Tests use 10000 distinct ascending scores, delete ranges only from the front, and check lengths only.",
  ["datastruct/skiplist.go"],
  [("spans maintained by insert and delete", "datastruct/skiplist.go Insert, deleteNode"), ("descent by score or rank", "datastruct/skiplist.go")],
  ["exported API of package datastruct"],
  state=[dict(name="Levels[].Span", meaning="number of elements a forward link skips", where="datastruct/skiplist.go")])
p("C26", "The sorted set keeps member lookup and order consistent",
  "After any sequence of Add (new members, score updates, equal scores), Delete, DeleteRangeByRank and DeleteRangeByScore, every lookup by member, rank, reverse rank, rank range, score range and count describes the same map from member to score, listed by (score, member). Every member appears exactly once, with its latest score.",
  ["histories", "inputs"], "all operation sequences, including updates of existing members",
  "Tests add each member once with ascending integer scores and never change a score.",
  ["datastruct/zset.go", "datastruct/skiplist.go", "datastruct/dict.go"],
  [("paired map and skiplist", "datastruct/zset.go")],
  ["exported API of package datastruct"])
p("C27", "A database copy is a complete and independent snapshot",
  "A deep copy of a database has exactly the keys, values of every type and deadlines of the original at the time of the copy. Afterwards no operation on the original or on its values changes the copy, and none on the copy changes the original.",
  ["histories", "inputs"], "all databases at any stage of resizing, all later operations on either side",
  "No test copies a database.",
  ["database/database.go", "datastruct/dict.go", "datastruct/quicklist.go", "datastruct/set.go", "datastruct/zset.go"],
  [("copying", "database/database.go DeepCopy, datastruct DeepCopy")],
  ["exported API of packages database and datastruct"])
p("C28", "File-event callbacks run exactly for ready, registered descriptors",
  "The event loop calls the callback registered for a descriptor and direction, with its own data, whenever that descriptor is ready in that direction, and never for an unregistered one: once RemoveFileEvent has returned, even from within another callback of the same round, that callback is not called again. Readable and writable interest of one descriptor are independent, registering twice or removing an absent registration fails and changes nothing.",
  ["histories", "schedules"], "all sequences of registration changes (also from callbacks) and readiness changes over many descriptors",
  "The one test registers a listener and one connection in a fixed order.",
  ["ae/ae.go"],
  [("registration table and epoll mask", "ae/ae.go AddFileEvent, RemoveFileEvent"), ("dispatch", "ae/ae.go wait, processEvents")],
  ["callbacks observed through the exported API of package ae"])
p("C29", "Timers fire no earlier than due, one-shots once, removed ones never",
  "A timer added with an interval never fires before that interval has elapsed, and fires within a bounded delay after it; a one-shot timer fires exactly once, a periodic one again and again with at least its interval between calls. Timer ids are unique, each call gets its own id and data, a removed timer (also one removed by another callback in the same round) never fires again, and removing an unknown timer fails without effect on the others.",
  ["histories", "schedules"], "all sets of timers and all sequences of additions and removals, also from callbacks",
  "The one test adds one one-shot and one periodic timer and never removes any.",
  ["ae/ae.go"],
  [("timer list", "ae/ae.go AddTimeEvent, RemoveTimeEvent"), ("due selection", "ae/ae.go wait, processEvents")],
  ["callbacks observed through the exported API of package ae"])
p("C30", "The server listens on exactly the configured address and port",
  "The listener is bound to exactly the configured IPv4 address and port: connections to that address succeed, and when a specific address is configured, connections to any other local address on that port are refused. An address that is not a valid IP address, or a port already in use, is reported as an error and leaves no descriptor open; outgoing connections go to the address given.",
  ["configurations", "inputs"], "all IPv4 addresses local to the machine, all ports, invalid addresses",
  "Tests bind 127.0.0.1 and connect to 127.0.0.1, which also works when the address is ignored.",
  ["socket/socket.go", "server/tcp.go", "server/server.go"],
  [("address conversion", "socket/socket.go Bind, Connect"), ("listener creation", "server/tcp.go CreateTCPServer")],
  ["connections over loopback addresses", "exported API of packages socket and server"])
p("C31", "Configuration files are honoured field by field",
  "Loading any valid configuration file yields exactly the values written in it for bind, port, logfile, loglevel, databases, requirepass, appendonly, appendfilename, appendfsync, auto-aof-rewrite-percentage and auto-aof-rewrite-min-size (sizes with or without b, kb, mb, gb units in either case), and zero values for absent ones. A server started with it uses that port, number of databases, password and append-only file name.",
  ["configurations"], "all valid configuration files",
  "Package config has no tests.",
  ["config/config.go", "cmd/root.go", "server/server.go"],
  [("field mapping", "config/config.go Config, LoadConfig"), ("use of settings", "server/server.go NewServer")],
  ["the loaded configuration", TCP])
p("C32", "Automatic rewrites follow the configured thresholds",
  "With appendonly on, the file is rewritten automatically once it exceeds auto-aof-rewrite-min-size and has grown by at least auto-aof-rewrite-percentage percent over its size after the previous rewrite, so that under any amount of overwriting it does not stay above both thresholds. It is never rewritten automatically below the minimum size, before that growth, or when the percentage is 0. (After a start the size after the previous rewrite is unknown; it counts as 0 or as the size at the start.)",
  ["histories", "configurations"], "all write histories, minimum sizes and percentages",
  "No test writes an append-only file.",
  ["server/server.go", "server/aof.go"],
  [("trigger", "server/server.go serverCron"), ("size bookkeeping", "server/aof.go flushAppendOnlyFile, aofRewriteDoneCallback")],
  ["size and content of the append-only file over time"])
p("C33", "Background persistence runs without data races or crashes",
  "While rewrites, background fsyncs and background expiry run, any concurrent command load executes without unsynchronised access to shared data between the background work and command execution, and without the server crashing or a rewrite failing to finish. This holds for every appendfsync setting, with appendonly on or off.",
  ["schedules", "configurations"], "all workloads over all value types overlapping rewrites and fsyncs",
  "No test runs background work; data races show only under particular schedules.",
  ["server/aof.go", "server/server.go", "database/database.go"],
  [("snapshot handed to the background writer", "server/aof.go rewriteAppendOnlyFileBackground"), ("completion channel", "server/aof.go aofRewriteDoneCallback"), ("background fsync", "server/aof.go aofFileSync")],
  ["race detector reports of an instrumented server build", "liveness of the server process"])

p("C34", "A failing disk never costs an acknowledged write",
  "If writing, syncing, opening, renaming or unlinking the append-only file or a rewrite's temporary file fails or is cut short (no space, I/O error, size limit), once or from then on, the server may stop or carry on, but never acknowledges a write that it then loses: when it is started again with the disk working, it starts, and the dataset is the result of a prefix of each client's commands that contains every acknowledged one. A failed rewrite leaves the previous file in force.",
  ["crash_points", "histories"], "every system call on the append-only and temporary files failing at every point of every workload",
  "No test makes a system call fail.",
  ["server/aof.go", "server/server.go"],
  [("write errors and short writes", "server/aof.go flushAppendOnlyFile"), ("rewrite errors", "server/aof.go aofRewriteDoneCallback")],
  ["injected errors of system calls of the server process", TCP + " before and after restart"])
p("C35", "Loading a log executes exactly its commands, or refuses it untouched",
  "Starting on any well-formed append-only file, also one written by another program (any letter case, failing, unknown or reading commands, arguments of any bytes and size, any number of databases, with or without a password), gives the dataset that executing its commands in order gives, and leaves the file as it was. A file in which the marker, count or length of a record or the line end behind an argument is broken, or one that selects a database that is not configured, is refused with an error and left untouched, rather than loaded in part.",
  ["inputs", "configurations"], "all append-only files, and all damages to the framing of a record",
  "No test loads an append-only file.",
  ["server/aof.go", "server/resp.go", "server/server.go"],
  [("log loader", "server/aof.go loadAppendOnlyFile"), ("framing", "server/resp.go")],
  ["dataset after the start", "the append-only file", "exit status"])
p("C36", "An ordinary stop at any moment is clean and loses nothing",
  "SIGTERM or SIGINT at any moment, also during start-up, under load or during a rewrite, ends the server within a bounded time, with exit status 0 (or by the signal itself while it is still starting) and without a panic. When it is started again on its append-only file, the dataset is the result of a prefix of each client's commands that contains every acknowledged one.",
  ["schedules", "crash_points"], "all instants of the signal during all workloads",
  "No test stops a server process.",
  ["cmd/root.go", "server/server.go", "server/aof.go", "ae/ae.go"],
  [("signal handling", "cmd/root.go"), ("shutdown", "server/server.go Stop")],
  ["exit status and output of the process", TCP + " before and after restart"])

p("C37", "A request means the same as an array, a line or a bulk string",
  "Besides RESP arrays the server takes requests as a line (any first byte other than '*' and '$', then the words separated by single spaces, as in \"+SET k v\") and, if they consist of one word, as a bulk string. Each has exactly the reply and the effect of the array of the same words, in any mixture on one connection and however the bytes are cut into segments; empty lines, empty arrays and empty bulk strings between requests are ignored.",
  ["inputs", "schedules"], "all request sequences in all mixtures of forms and all segmentations",
  "Tests parse one complete buffer per form and execute nothing.",
  ["server/resp.go", "server/server.go", "server/client.go"],
  [("choice of the form", "server/resp.go processInputBuffer"), ("the three parsers", "server/resp.go processInlineBuffer, processBulkBuffer, processMultiBulkBuffer")],
  [TCP])
p("C38", "Broken framing executes nothing and ends only its connection",
  "Of any byte stream exactly the requests that are complete and correctly framed before the first broken one are executed, and their replies are sent. Once the framing is broken (wrong marker, count or length that is no number or out of range, argument not followed by its line end), nothing of that request or of anything behind it on that connection is ever executed or logged, however well-formed it looks, and the connection is closed. An incomplete request at the end of a connection is never executed.",
  ["inputs"], "all byte streams, cut anywhere, in all segmentations",
  "Tests parse well-formed buffers only.",
  ["server/resp.go", "server/server.go"],
  [("validation", "server/resp.go"), ("closing after an error", "server/server.go readQueryFromClient")],
  [TCP, "dataset read by another connection", "the append-only file"])
p("C39", "Changing the configuration file never disturbs a running server",
  "Whatever happens to the configuration file while the server runs (valid or invalid content, half written, removed, replaced), the server keeps running with the settings it was started with: connections, replies, data and the append-only file are not affected, and no descriptors leak.",
  ["configurations", "schedules"], "all contents of the file and all ways of changing it, at any point of a history",
  "Package config has no tests.",
  ["config/config.go", "cmd/root.go", "server/server.go"],
  [("watching the file", "config/config.go LoadConfig OnConfigChange"), ("settings copied at the start", "server/server.go NewServer")],
  [TCP, "liveness of the server process", "number of its descriptors"])
p("C40", "Running out of descriptors disturbs no connected client and passes",
  "When the server has no file descriptors left, it keeps serving every connection it has accepted and loses nothing; new connections wait and rewrites of the append-only file may be given up. As soon as there are descriptors again, the waiting connections are served, rewrites succeed, and a restart reproduces the dataset.",
  ["histories", "crash_points"], "all histories of connections, commands and rewrites under all limits",
  "No test opens more than one connection.",
  ["server/server.go", "server/aof.go", "ae/ae.go"],
  [("accepting", "server/server.go acceptTCPHandler"), ("rewrite's files", "server/aof.go rewriteAppendOnlyFile, aofRewriteDoneCallback")],
  [TCP, "liveness of the server process"])
p("C41", "Interrupted system calls are invisible to clients",
  "If system calls fail for a transient reason (EINTR or EAGAIN on reads, writes, waits and syncs; EINTR, EAGAIN, ECONNABORTED or EMFILE while accepting), any number of times, no request or reply is lost, doubled or changed, no connection is closed, every new connection is served in the end, and the log is complete.",
  ["crash_points", "histories"], "all patterns of transient failures during all histories",
  "No test makes a system call fail.",
  ["server/server.go", "ae/ae.go", "socket/socket.go", "server/aof.go"],
  [("error handling of reads and writes", "server/server.go readQueryFromClient, sendReplayToClient"), ("interrupted wait", "ae/ae.go Main")],
  ["injected errors of system calls of the server process", TCP])

p("C42", "What has been removed is gone: resources follow the live data, not the past",
  "However many keys, elements, deadlines, big values, connections, unfinished requests, unread replies and failed commands there have been, once they are removed, expired, closed or done they occupy nothing: memory stays within a bound that the number of repetitions does not raise, no descriptor stays open, the rewritten log holds only what is left, no temporary file stays after a rewrite, the log, loaded again, gives only what is left, and the idle server uses no more of the processor than at first.",
  ["histories"], "all histories that create and remove data, connections and rewrites, of any length",
  "No test repeats anything or looks at the resources of the process.",
  ["server/server.go", "server/client.go", "database/database.go", "datastruct/dict.go", "datastruct/quicklist.go", "datastruct/zset.go", "server/aof.go"],
  [("client teardown", "server/client.go free"), ("deletion", "database/database.go Del"), ("rewrite clean-up", "server/aof.go")],
  ["memory and descriptors of the server process in /proc", TCP])

p("C43", "What has been removed from a container can be collected",
  "Once an element has been removed from or overwritten in a list, hash table, set, sorted set or skiplist, in whatever way, or a set operation is done, the container and its copies keep no reference to it (but for a constant few), however long they live on and however many elements stay: after a garbage collection it is gone.",
  ["inputs", "histories"], "all sequences of insertions, removals, range removals, overwrites, iterations and copies, of any size",
  "The tests look at the elements that stay; an element that is still reachable behaves like one that is gone until memory runs out.",
  ["datastruct/quicklist.go", "datastruct/dict.go", "datastruct/set.go", "datastruct/skiplist.go", "datastruct/zset.go"],
  [("page slots", "datastruct/quicklist.go Remove, Insert"), ("range removal", "datastruct/zset.go DeleteRangeByScore, DeleteRangeByRank"), ("both tables", "datastruct/dict.go rehash")],
  ["exported API", "weak pointers to the elements"])

p("C44", "Operations cost what a container holds now, whatever it held before",
  "After any history, looking up a present or absent key of a hash table, set or sorted set takes on average a constant number of comparisons, whatever the keys look like; drawing a random element and iterating over what is left take time for the elements that are left, not for those that were there; inserting, deleting, ranking and seeking in a sorted set or skiplist stay logarithmic and pushing and popping at the ends of a list constant. Iterations that were abandoned leave no cost behind.",
  ["inputs", "histories"], "all sequences of insertions, removals, finished and abandoned iterations and copies, of any size, over names of any shape",
  "The tests hold few elements, for which everything is fast.",
  ["datastruct/dict.go", "datastruct/set.go", "datastruct/skiplist.go", "datastruct/zset.go", "datastruct/quicklist.go", "database/dict.go"],
  [("growing and shrinking", "datastruct/dict.go expandIfNeeded, shrinkIfNeeded"), ("moving", "datastruct/dict.go rehash, DictIterator"), ("levels", "datastruct/skiplist.go randomLevel"), ("hash function", "database/dict.go Hash")],
  ["exported API", "a counting DictType", "the clock, with a wide margin"])

p("C45", "Busy clients do not starve the others",
  "However busy some clients keep the server, with requests sent without a pause, large values, requests in small pieces, endless lines, errors or connections opened and closed one after the other, the others get their replies within a bounded time, the busy ones make progress side by side, deadlines are applied and rewrites of the log end.",
  ["schedules", "histories"], "all mixtures of clients that send without a pause, and all moments of the others' requests",
  "No test has two clients at a time.",
  ["ae/ae.go", "server/server.go", "server/client.go", "server/tcp.go", "server/aof.go"],
  [("one read per readable event", "server/server.go readQueryFromClient"), ("timers beside busy descriptors", "ae/ae.go Main"), ("one write per writable event", "server/server.go sendReplayToClient"), ("accepting", "server/server.go acceptHandler")],
  [TCP])

p("C46", "Rounds of the event loop: the before-sleep callback and stopping",
  "The callback set to run before the loop sleeps runs exactly once before every wait, the latest one set, and not once it is unset, so that everything done in one round is followed by it before the next events are handled; Stop, called before Main, from any callback, timer or before-sleep callback, from another goroutine, once or twice, makes Main return without an error at the end of the current round, without waiting for further events.",
  ["schedules", "histories"], "all sequences of events, timers and changes of the callback, all moments of Stop",
  "The tests run one loop with one event and one timer.",
  ["ae/ae.go"],
  [("rounds", "ae/ae.go Main"), ("stopping", "ae/ae.go Stop"), ("before-sleep callback", "ae/ae.go SetBeforeSleepProc")],
  ["exported API", "pipes"])

p("C47", "Random picks can return every key and every member",
  "RANDOMGET returns a key the current database holds now, and any of them may come, whatever their type, deadline or the sizes the table has had before; it returns nil only if there is none. SPOP takes out any one of the members the set has now; taken again and again, it returns each of them once, and with the last one the key is gone.",
  ["histories"], "all histories of keys and members, and all outcomes of the draws between them",
  "No test draws at random on a server.",
  ["server/commandstring.go", "server/commandset.go", "datastruct/dict.go", "datastruct/set.go"],
  [("RANDOMGET", "server/commandstring.go randomGetCommand"), ("SPOP", "server/commandset.go sPopCommand"), ("drawing", "datastruct/dict.go GetRandomKey")],
  [TCP])

p("C48", "Messages go to the configured log and have no effect elsewhere",
  "The log file named in the configuration is created with its directories, or continued after what it holds already; every line the server adds is one JSON record with a level, a time and a message, none below the configured level (info if it is none of the four), whatever clients send; it has a record of each start at level info with the address, one at level error of each connection closed for broken framing, and a fatal one if the server ends because its port is in use or its append-only file selects a database that is not configured; the password is in none of them. Without a log file none is written. Level, file and failing writes to it change no reply, no data and no restart.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all request streams, levels, file names, restarts, and a log that cannot be written",
  "No test starts a server with a log file.",
  ["log/log.go", "cmd/root.go", "server/server.go", "server/aof.go"],
  [("levels and file", "log/log.go InitLogger"), ("start", "cmd/root.go run"), ("broken framing", "server/server.go readQueryFromClient")],
  [TCP, "/dev/full as a file that cannot be written"])

p("C49", "Time alone changes nothing but what has a deadline",
  "A connection that sends nothing, that stops in the middle of a request or does not read its replies keeps everything however long it does so: it stays open, logged in and on its database, what it sent of the request counts when the rest comes, and the replies it is owed are all there when it reads them, also if it has closed its own side meanwhile. Keys and values stay as they are while nobody uses them, except those with a deadline.",
  ["schedules", "histories"], "all pauses between and within requests and before replies are read, on any number of connections",
  "No test waits.",
  ["server/server.go", "ae/ae.go", "server/client.go"],
  [("connections", "server/server.go acceptHandler, readQueryFromClient"), ("clients", "server/client.go"), ("timers", "server/server.go serverCron, ae/ae.go")],
  [TCP])

p("C50", "Nothing depends on how many there are",
  "Replies, dataset and log are the same function of the commands whether there are few or many: connections open at once, databases, keys, elements of a value, arguments of a command, requests sent before a reply is read, bytes of a value, entries of a rewrite. There is no number from which on something is refused, cut off, mixed up or lost, short of the limits of the machine and of those that C01 names.",
  ["inputs", "histories", "configurations"], "all numbers of connections, databases, keys, elements, arguments, requests and bytes",
  "The tests use a handful of each.",
  ["server", "ae/ae.go", "datastruct", "server/aof.go"],
  [("connections", "ae/ae.go, server/server.go"), ("collections", "datastruct"), ("log", "server/aof.go")],
  [TCP])

p("C51", "Instances in one process share nothing",
  "Dictionaries, lists, sets, skiplists, sorted sets, databases, event loops and servers that exist in one process at the same time, each used by a goroutine of its own, behave as each does alone: no data race between them, no result, data or file of one depends on what the others do, also while they rewrite logs in the same directory, stop or are created again.",
  ["schedules", "histories"], "all sets of instances, all operation sequences on each, all schedules of their goroutines",
  "The tests use one instance at a time.",
  ["datastruct", "database", "ae/ae.go", "server"],
  [("containers", "datastruct"), ("databases", "database"), ("loops", "ae/ae.go"), ("servers", "server/server.go NewServer")],
  ["exported API", TCP])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
