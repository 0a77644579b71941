E = "exploration"
F = "fault_enumeration"
TRUST = " Trusts the reference model and RESP reader in harness/rs, loopback TCP and the clock."
M = "model-based PBT (rapid) of the server over TCP"
DATA = {
 "C01": ("metamorphic PBT (rapid): the same request stream, segmented and pipelined differently", E, "Random request sequences and segmentations against the same stream sent request by request and the model; TCP may merge segments, so cuts are separated by pauses only in part of the cases." + TRUST),
 "C02": ("structured fuzzing of the byte stream (rapid) with liveness and control-connection oracle", E, "Grammar-mutated and random byte streams with a canary connection; sampled. The server's address space is limited to 8 GB, so that an allocation of an unchecked length shows." + TRUST),
 "C03": ("model-based and round-trip PBT (rapid) with a strict RESP reader", E, "Random commands with arguments of arbitrary bytes; every reply parsed strictly and counted against PING sentinels; sampled." + TRUST),
 "C04": ("PBT (rapid) over read schedules with large pipelined replies", E, "Random reply sizes, read chunk sizes and pauses; sampled." + TRUST),
 "C05": ("stateful PBT (rapid) over connection lifecycles", E, "Random interleavings of open, partial request, close, half-close and reset; descriptors counted in /proc; sampled." + TRUST),
 "C06": ("stateful PBT (rapid) against an authentication model", E, "Random passwords and histories of AUTH and other commands; sampled." + TRUST),
 "C07": (M, E, "Random histories of SELECT and data commands over several connections and database counts; sampled." + TRUST),
 "C08": (M, E, "Random command histories, every reply and the final dataset compared with a map model; sampled, not exhaustive." + TRUST),
 "C09": (M, E, "Random hash histories with fills up to 1025 fields against a map of maps; sampled." + TRUST),
 "C10": (M, E, "Random list histories with lists beyond several pages against a slice; sampled. Indices beyond the start of the list are out of the domain." + TRUST),
 "C11": (M, E, "Random set histories against mathematical sets; sampled." + TRUST),
 "C12": (M, E, "Random sorted-set histories against a (score, member) ordered map; sampled. Negative ranks are out of the domain." + TRUST),
 "C13": ("metamorphic PBT (rapid): dataset before and after failing and reading commands", E, "Random wrong types, arities, names and numbers at every position; sampled." + TRUST),
 "C14": ("model-based PBT (rapid) in real time", E, "Random histories with deadlines in the past and 1-3 s ahead; operations are not issued within 60 ms of a deadline; sampled." + TRUST),
 "C15": ("concurrent PBT (rapid) with linearizability checking (porcupine)", E, "Random concurrent programs over few keys; each recorded history is decided completely; sampled." + TRUST),
 "C16": ("differential PBT (rapid): dataset before stopping and after restarting", E, "Random write histories over several restarts; the server's own dataset is the oracle, so this is independent of the model; sampled." + TRUST),
 "C17": ("model-based PBT (rapid) with rewrites at any point of the history", E, "Random histories with manual and automatic rewrites, and load during rewrites; sampled." + TRUST),
 "C18": ("fault-injection PBT (rapid): SIGKILL at random times and at chosen system calls", F, "Random workloads killed at a random microsecond or at the entry of the n-th write, fsync, rename, unlink, open or close; process crash only, no power loss; sampled." + TRUST),
 "C20": ("fault-injection PBT (rapid): log cut at any byte", F, "Random logs cut at random and boundary offsets; sampled." + TRUST),
 "C19": ("PBT (rapid) over command histories with a system-call trace (strace) as observation", E, "Random pipelined histories; the order of log writes, fsyncs and sends is exact in the trace; the time limit of everysec (2 s) must be exceeded repeatedly to count; sampled. Trusts strace."),
 "C21": ("model-based PBT (rapid) in real time with restarts, downtime and rewrites", E, "Random histories with short deadlines over restarts and rewrites, also exactly at a deadline; a deadline may move up to a second earlier at a restart; sampled." + TRUST),
 "C32": ("model-based PBT (rapid) of the file size against the thresholds", E, "Random histories, percentages and minimum sizes, with sizes steered to the thresholds; after a restart the size after the previous rewrite is unknown and both readings are accepted; sampled." + TRUST),
 "C33": ("concurrent PBT (rapid) of a server built with the race detector", E, "Random concurrent loads overlapping rewrites, fsyncs and expiry; finds races on executed paths; sampled. Trusts Go's race detector."),
 "C22": ("model-based stateful PBT (rapid) of the exported API", E, "Random operation sequences with nine hash functions (colliding, negative, constant) and concurrent iterators against a map; sampled. While an iteration runs, only its current entry is deleted."),
 "C23": ("model-based stateful PBT (rapid) of the exported API", E, "Random operation sequences on lists of zero to many pages, positions steered to page boundaries, against a slice; sampled. Negative Range bounds reach at most to the first element."),
 "C24": ("model-based stateful PBT (rapid) of the exported API", E, "Random histories and algebra on three sets against mathematical sets; sampled. Members are strings, as in the server."),
 "C25": ("model-based stateful PBT (rapid) of the exported API", E, "Random operation sequences with seeded level choices against a sorted slice; sampled. Ranks start at 1 and no member is inserted twice, as documented."),
 "C26": ("model-based stateful PBT (rapid) of the exported API", E, "Random operation sequences against a map and a sorted slice; sampled. Negative ranks are out of the domain."),
 "C27": ("model-based stateful PBT (rapid) of the exported API", E, "Random histories on a database and its copies against one model each; sampled."),
 "C28": ("model-based PBT (rapid) of programs inside the event loop, readiness from poll(2)", E, "Random registration programs over pipes and socket pairs, with actions inside callbacks; sampled. Trusts poll(2). Descriptors are unregistered before they are closed."),
 "C29": ("PBT (rapid) of timer programs in real time", E, "Random timer programs; earliness is exact to the millisecond of the wall clock, lateness means more than 450 ms and must be reproduced; sampled."),
 "C30": ("model-based PBT (rapid) over loopback addresses", E, "Random programs of listeners and connections within 127.0.0.0/8 and invalid addresses, through the exported API and through the server process; sampled."),
 "C31": ("PBT (rapid): generated configuration files, loaded values against generated values", E, "Random TOML, JSON and YAML files, each loaded in a process of its own, one in six also by the server; sampled. One-digit sizes with the unit b are left out."),
 "C34": ("fault-injection PBT (rapid): failing system calls of the log", F, "Random workloads in which the n-th (or every later) write, fsync, open, rename, unlink or close of the log fails with a random error, or a size limit cuts a write; one kind of fault per case; sampled. Trusts strace." + TRUST),
 "C35": ("model-based structured fuzzing (rapid) of the log file", E, "Random hand-made logs, whole or with one record's framing broken, against the model; sampled." + TRUST),
 "C36": ("fault-injection PBT (rapid): SIGTERM or SIGINT at random times", F, "Random workloads stopped after a random time up to 23 ms, also during start-up; sampled." + TRUST),
 "C37": ("model-based and metamorphic PBT (rapid) of the request forms", E, "Random request sequences in random forms and segmentations against the model; sampled." + TRUST),
 "C38": ("structured fuzzing (rapid) of request framing against an independent reference parser", E, "One or two random changes of the framing of one request, followed by further requests; streams with unusual but readable numbers are skipped; sampled. Trusts the reference parser." + TRUST),
 "C39": ("stateful PBT (rapid) with changes of the configuration file", E, "Random changes of the file between commands, noticed within milliseconds by inotify; sampled." + TRUST),
 "C40": ("fault-injection stateful PBT (rapid) under a descriptor limit", F, "Random histories under random limits set on the running server; sampled." + TRUST),
 "C41": ("fault-injection model-based PBT (rapid): transient system-call errors", F, "Periodic injected errors of up to three system calls during random histories; sampled. Trusts strace." + TRUST),
 "C42": ("metamorphic PBT (rapid): repeated creation and removal, resources in /proc as the oracle", E, "Random churn of 1-2 kinds, 8 rounds (thorough 25), now and then with one element kept; growth of memory counts above 60 MB and half, and must be reproduced; sampled." + TRUST),
 "C43": ("model-based stateful PBT (rapid) with weak pointers to the elements", E, "Random bulk histories on the five containers and a copy; four elements may be remembered; sampled." + TRUST),
 "C44": ("metamorphic PBT (rapid): cost after a history against what the current size warrants", E, "Comparisons are counted exactly; times count only 50 us above what takes about one, as the least of several means, and must be reproduced; up to 60000 elements; sampled." + TRUST),
 "C45": ("fault-injection PBT (rapid): generated mixtures of flooding clients, response time of the others as the oracle", F, "Random mixtures of 1-4 flooding clients for 3.5 s (thorough to 8 s); a reply counts as missing after 2 s and only if it happens again when the case is repeated alone; sampled." + TRUST),
 "C46": ("stateful PBT (rapid) over the event loop with pipes, timers and a before-sleep callback", E, "Random frames of up to a few dozen acts; the order of callbacks within a round is left open; sampled."),
 "C47": ("stateful PBT (rapid): draws until every element has come, with a bound on the probability of an alarm by chance", E, "Random histories on two databases, draws from up to 40 elements; a bias that leaves every element possible is not an alarm; sampled." + TRUST),
 "C48": ("stateful model-based PBT (rapid) with the log of messages read back", E, "Random histories with texts that look like log records, eight levels, six file names and one that cannot be written; rotation at 128 MB is not reached; sampled." + TRUST),
 "C49": ("stateful model-based PBT (rapid): generated pauses between and within requests", F, "Pauses of up to 31 s (thorough: 125 s), sampled; longer time limits are out of reach." + TRUST),
 "C50": ("stateful model-based PBT (rapid) in large numbers", E, "Up to 5000 connections, 100000 keys, 140000 elements, 3000 databases, 40 MB (thorough: three times as many of most); limits above these are not found; sampled." + TRUST),
 "C51": ("stateful metamorphic and model-based PBT (rapid) in child processes with the race detector", E, "Random sets of 1-5 kinds of instances; schedules are the Go scheduler's; containers are compared with themselves alone, servers with the model; sampled." + TRUST),
}
