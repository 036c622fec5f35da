#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "DPPIR/"
PR = D + "protocol/"
PP = PR + "parallel_party/"

prop("C01", "Every client gets exactly the rows it asked for",
 "When all clients and all servers of all parties run the protocol with the same configuration and nothing is corrupted, every client finishes successfully and the answer it reconstructs for its i-th query is the database row it queried i-th, for the online-only stage and for the combined offline and online stage. This holds for any number of parties (at least two), servers per party, query counts (including zero and different counts per client), and noise settings.",
 ["inputs", "configurations", "schedules"],
 "all topologies, database sizes, per-client query counts, keys, secrets, noise amounts, seeds and message timings",
 "No existing test runs the protocol at all: the unit tests exercise sharing, onion, shuffle, noise and config in isolation, so nothing checks that shares, masks, shuffles and routing compose.",
 [PR+"client/*.cc", PR+"party/*.cc", PP+"*.cc", PR+"backend/*.cc", D+"types/state.cc", D+"types/database.cc"],
 [("client compares each reconstructed response with its own copy of the database", PR+"client/client_online.cc StartOnline"),
  ("query/response composition across parties", PR+"party/party_online.cc, "+PP+"parallel_party_online.cc, "+PR+"backend/backend_online.cc")],
 ["process exit status and output", "bytes on every client-party and party-party connection"])

prop("C02", "The protocol always terminates: no deadlock under any schedule",
 "In a fault-free run every process finishes and exits successfully after a finite number of steps, whatever the relative speed of the processes, the order in which connections are made and messages are delayed, how the byte streams are split, and however small the (non-zero) socket buffers are.",
 ["schedules", "configurations", "inputs"],
 "all interleavings, delivery delays, start orders, read/write segmentations and buffer capacities, for all topologies and batch sizes including empty batches",
 "The only multi-process test (sockets) is flaky and excluded; no test runs sibling servers against each other, delays a link, or fills a socket buffer.",
 [PP+"parallel_party_util.inc", PP+"*.cc", PR+"party/*.cc", PR+"backend/*.cc", D+"sockets/*.cc"],
 [("interleaved send and poll between sibling servers", PP+"parallel_party_util.inc SendAndPoll"),
  ("ready/count handshakes", D+"sockets/*_socket.cc"), ("retry on connect", D+"sockets/common.cc ConnectTo")],
 ["process exit", "connections"])

prop("C03", "Every party adds the configured noise for every database row",
 "In every batch, each party except the last adds to the outgoing queries exactly the configured number of noise queries for each row of the database (when real sampling is compiled in: a number between zero and the configured maximum), in the offline and in the online stage, spread over its servers with no row missed, repeated or out of range. Each noise query is well formed, that is, the later parties reconstruct precisely its intended row from it.",
 ["inputs", "configurations", "schedules"],
 "all database sizes, server counts, positions in the chain, privacy parameters and input counts, including empty input batches",
 "The noise test samples the distribution alone; nothing checks which rows a party's batch covers or that the noise queries decode to those rows.",
 [PR+"party/party_initialization.cc", PP+"parallel_party_initialization.cc", PR+"party/party_handlers.cc", PP+"parallel_party_handlers.cc", D+"noise/noise.cc"],
 [("noise samples per row of the server's range", "InitializeNoiseSamples"), ("noise secrets and queries", "MakeNoiseSecret / MakeNoiseQuery / InitializeNoiseQueries")],
 ["ciphers and queries leaving each party, opened with the later parties' keys"])

prop("C04", "A party's output batch is a permutation of its input batch plus noise",
 "For each party, the messages its servers send on (offline ciphers, and queries) are exactly the transformed messages its servers received plus its own noise: nothing is lost, duplicated, altered or invented, each query leaves with the replacement identifier and the updated share prescribed by its secret, and the announced counts equal what is then sent, split evenly over the servers of the next party with the remainder at the last one.",
 ["inputs", "configurations", "schedules"],
 "all batches, topologies, identifiers, share values, server loads and timings",
 "No test runs a party; the shuffle test only checks index maps for a few sizes.",
 [PR+"party/*.cc", PP+"*.cc", D+"types/containers.h", D+"types/state.cc"],
 [("query handling", "HandleQuery"), ("shuffled batch assembly", "CollectQueries / ShuffleQueries / ShuffleCiphers"), ("count agreement", "InitializeCounts")],
 ["connections into and out of every party"])

prop("C05", "Every query receives its own response, in order, and noise is stripped",
 "Each server returns to its predecessor exactly one response per query it received from it, in the order of those queries, and each is the response that came back for that very query with this party's mask removed; responses to the party's own noise are never passed back. The last party answers each query with the queried row masked with the secret stored for that query.",
 ["inputs", "configurations", "schedules"],
 "all batches, permutations (seeds), noise amounts, server loads, response contents and delivery orders",
 "Tests never produce a response batch; correct routing depends on the composition of two shuffles, noise positions and sibling exchange for every load.",
 [PR+"party/party_online.cc", PP+"parallel_party_online.cc", PP+"parallel_party_shuffle.cc", PR+"backend/*.cc", D+"shuffle/*.cc"],
 [("deshuffle and noise filtering", "CollectResponses / DeshuffleResponses / FromSibling"), ("unmasking", "HandleResponse")],
 ["connections into and out of every party"])

prop("C06", "Nothing leaves a party before its whole batch is in",
 "No server of a party forwards any offline cipher, any query or any response before all servers of that party have received their complete batch of that kind (each server of the last party: its own complete batch). Hence no message can be linked to another through the order or time at which it passes a party.",
 ["schedules", "configurations", "inputs"],
 "all delivery schedules, in particular those that delay any one message on any one connection, and all topologies and batch sizes",
 "It is a claim about every schedule; no test runs more than one protocol process.",
 [PR+"party/*.cc", PP+"*.cc", PR+"backend/backend_online.cc"],
 [("collect-then-send structure", "CollectQueries/SendQueries etc."), ("sibling barriers", "BroadcastReady / WaitForReady")],
 ["order of bytes leaving a party relative to the delivery of bytes to it"])

prop("C07", "Stages start only when everything downstream is ready",
 "A server signals readiness to its predecessor only after every server of its party has its successor's readiness for the same stage (the last party: after it knows its batch size, and, for the online stage, after all its servers hold all offline secrets). A batch is announced only once the whole party's input size is known, and no offline cipher or query is ever sent before the matching readiness signal has arrived.",
 ["schedules", "configurations"],
 "all delivery schedules and topologies, for the offline-only, online-only and combined stages",
 "Holds or fails depending on message timing between processes; no test has such processes.",
 [PR+"client/client_offline.cc", PR+"party/party_offline.cc", PP+"parallel_party_offline.cc", PR+"backend/backend_offline.cc"],
 [("ready handshake chain", "WaitForReady / SendReady / BroadcastReady")],
 ["order of messages on all connections"])

prop("C08", "Onion ciphers: one layer per party, exact, uniform, tamper-evident",
 "A cipher made for a sequence of parties is opened by each of them in turn with its own key only, each obtaining exactly the secret meant for it and the exact cipher for the next one; a cipher opened with another key, or altered anywhere, is refused. At every hop all ciphers, real or noise, have the same length, and two encryptions of the same secrets differ.",
 ["inputs", "configurations"],
 "all secrets, party counts, positions in the chain, keys and single-byte alterations",
 "The unit test opens a handful of well-formed onions; it never alters one, never mixes keys, never compares sizes or a suffix of parties, and never runs a party on one.",
 [D+"onion/onion.cc", D+"onion/onion.h", PR+"party/party_offline.cc", PP+"parallel_party_offline.cc"],
 [("nested sealed boxes", D+"onion/onion.cc OnionEncrypt/OnionDecrypt")],
 ["onion API", "ciphers on the connections"])

prop("C09", "Offline secrets are fresh, single-use and uniquely identified",
 "All secrets that reach one party in a batch, from any client and from earlier parties' noise, carry pairwise different identifiers; each is used for at most one query, and its shares and masks are drawn anew from the cryptographic generator, independent of the query. No client or party run with valid parameters ever fails because of clashing identifiers, even when clients make different numbers of queries or noise is really sampled.",
 ["inputs", "configurations"],
 "all per-client query counts, noise amounts (fixed or sampled), topologies and generator outputs",
 "Tests do not create offline secrets; clashes depend on the combination of all clients' counts and all parties' noise counts.",
 [PR+"client/client_handlers.cc", PR+"party/party_handlers.cc", PP+"parallel_party_handlers.cc", D+"types/state.cc", D+"sharing/*.cc"],
 [("identifier choice", "SampleTag"), ("secret creation", "MakeSecret / MakeNoiseSecret"), ("refusal of clashing identifiers", D+"types/state.cc Store")],
 ["ciphers on every connection, opened with the parties' keys"],
 )

prop("C10", "Corruption or crashes never produce a wrong answer",
 "Whatever message is altered in transit and whichever process dies at whatever point, a client exits successfully only if every response it used is the correct row for its query. In particular an altered offline cipher stops the party that opens it, so that no client of that batch succeeds, and an altered response makes the client that uses it fail.",
 ["crash_points", "fault_sequences", "inputs"],
 "all single alterations of any message kind on any connection and all crash points of any one process",
 "No test injects a fault into a protocol run.",
 [PR+"client/client_online.cc", D+"onion/onion.cc", D+"sockets/common.cc", D+"types/types.cc"],
 [("authenticated opening of ciphers", D+"onion/onion.cc OnionDecrypt"), ("client-side comparison with the expected row", PR+"client/client_online.cc"), ("socket error checks", D+"sockets/common.cc")],
 ["process exit status"])

prop("C11", "Messages survive any splitting of the byte stream",
 "Whatever way the transport splits or merges the byte stream, on reading and on writing, each connection (client side, server side, and between siblings) delivers exactly the messages sent, in order, for all message kinds and sizes. A bounded read never returns more messages than asked for and never consumes bytes of later messages beyond them, and a write sends every buffered message exactly once.",
 ["schedules", "inputs"],
 "all sequences of read and write segment sizes (including one byte at a time and splits inside a message), message counts, buffer boundaries and message kinds",
 "The socket test sends over loopback in one segmentation and is excluded as flaky; partial messages practically never occur there.",
 [D+"sockets/*.cc", D+"sockets/*.h", D+"types/containers.h"],
 [("partial-message carry over", D+"types/containers.h LogicalBuffer / CipherLogicalBuffer"), ("looped send and bounded read", D+"sockets/common.cc, common.h")],
 ["socket API under controlled segmentation"])

prop("C12", "Incremental sharing reconstructs the key and hides it",
 "For every key below the sharing prime and every sequence of shares the generator can produce, applying the shares in order to the initial tally gives back the key, and every intermediate tally is a valid field element. For any proper prefix of the parties the tally they see is uniformly distributed whatever the key is, and every share component ranges over its whole domain, the multiplicative one excluding zero.",
 ["inputs"],
 "all keys, party counts, share values including the extreme ones, and generator outputs",
 "The test round-trips random values; it does not force boundary shares, intermediate values, or the distribution of what a party sees.",
 [D+"sharing/incremental.cc"],
 [("affine re-randomisation modulo 2^31-1", D+"sharing/incremental.cc"), ("sampling of shares", "PreIncrementalSecretShares")],
 ["sharing API"])

prop("C13", "Response masks cancel out exactly and hide the response",
 "For any number of parties the generated masks combine to zero in every bit, so that removing all of them in any order restores the response unchanged in every byte. All masks but the last are independent uniformly random strings over their whole length, so any proper subset of them reveals nothing.",
 ["inputs"],
 "all mask counts, responses and generator outputs",
 "The test round-trips random responses; it would accept masks that are constant, zero, repeated, or cover only part of the response.",
 [D+"sharing/additive.cc"],
 [("XOR masks from the cryptographic generator", D+"sharing/additive.cc")],
 ["sharing API"])

prop("C14", "Shuffling maps are consistent bijections that all siblings agree on",
 "For every batch size, server count, load distribution (including servers with no messages) and seed: the local shuffle is a bijection whose reverse undoes it, and the shuffle across siblings assigns every message to exactly one server such that each server gets its even slice. All siblings agree on how many messages and noise messages flow between each pair, and reversing the shuffle returns every message to the position it came from.",
 ["inputs", "configurations"],
 "all load vectors, noise counts, server counts and seeds",
 "The test covers a few fixed sizes and seeds with balanced loads.",
 [D+"shuffle/*.cc", D+"shuffle/*.h"],
 [("local permutation and inverse", D+"shuffle/local_shuffle.cc"), ("shared-seed assignment to servers", D+"shuffle/parallel_shuffle.cc")],
 ["shuffler API"])

prop("C15", "Shuffling can produce every order, without bias",
 "Over the choice of seeds every order of a batch can result from the shuffle, with practically equal frequency, and likewise every assignment of messages to sibling servers that respects the slice sizes. In particular the last position of the input can end up anywhere in the output and no input position is more likely than another to reach an output position.",
 ["inputs", "configurations"],
 "all batch sizes and all seeds",
 "Tests check that a shuffle is a permutation, not which permutations are reachable or how often.",
 [D+"shuffle/util.cc", D+"shuffle/util.h", D+"shuffle/local_shuffle.cc", D+"shuffle/parallel_shuffle.cc"],
 [("Fisher-Yates with a bounded random choice", D+"shuffle/util.h shuffle, util.cc random_bounded")],
 ["shuffler API", "order of queries leaving a party"])

prop("C16", "The amount of noise follows the privacy parameters",
 "For privacy parameters epsilon and delta, the noise per row is the floor of (2/epsilon)*ln(1/delta) in the default build, never less for a stricter setting; with real sampling it is, independently for each row and run, a Laplace sample of scale 2/epsilon centred at that cut-off, clamped to between zero and twice the cut-off and rounded down. A parameter of zero switches noise off, no parameter makes the amount negative or exceed its maximum, and an amount too large to be represented is refused.",
 ["inputs", "configurations"],
 "all epsilon in (0, 10], delta in (0, 1), and all random draws",
 "The test checks a histogram for one parameter pair.",
 [D+"noise/noise.cc", D+"noise/noise.h"],
 [("cut-off from the inverse distribution function", D+"noise/noise.cc NoiseDistribution"), ("clamping", "SampleReal")],
 ["noise API", "batch sizes announced by a party"])

prop("C17", "Sibling servers split the rows to be noised exactly",
 "For every database size and every number of servers not exceeding it, the row ranges the servers of a party are responsible for are well formed, lie inside the database, are pairwise disjoint and together cover every row.",
 ["inputs", "configurations"],
 "all database sizes and server counts with at least one row per server",
 "The existing tests only use divisible sizes.",
 [D+"noise/noise.cc"],
 [("range computation", "FindRange")],
 ["noise API", "noise queries leaving a party"])

prop("C18", "Configurations survive storage and describe a consistent network",
 "Writing a configuration and reading it back, through memory or a file, restores every field exactly, for any keys, seeds, addresses, ports and parameters. A generated configuration lists exactly the requested parties and servers with the given addresses in order, all listening ports different (for up to 1000 servers in total), seeds shared within a party and different between parties and between servers, and a matching, distinct key pair per party.",
 ["inputs", "configurations"],
 "all configurations (any byte values in keys, negative and large numbers, any address strings) and all generator arguments",
 "The test round-trips one configuration and never runs the generator.",
 [D+"config/config.cc", D+"config/gen_config.cc"],
 [("binary serialisation", D+"config/config.cc"), ("generator", D+"config/gen_config.cc")],
 ["config API", "gen_config tool"])

prop("C19", "The orchestrator gives every experiment role to exactly one worker",
 "Under any order of registrations, pings, reports and operator commands, where workers ping only when they are free (they register, ping, run the job they are given, report it), each experiment is handed exactly the number of servers and clients it asks for, in first-come order and without delay, with every party/server position and every client number assigned exactly once (a baseline with servers gets its client only when it has its servers). A worker that is told to wait gets no role, no worker is given a role of the wrong kind, and the job description sent to a worker states its own position and its experiment's parameters (for a DP-PIR client an equal share, rounded down, of the experiment's total number of queries; for the client of a baseline, the addresses and ports given to that baseline's servers). The configuration handed to the workers of a DP-PIR experiment is the one generated for that experiment's parameters and its servers' addresses in position order, and is withheld until all servers are known.",
 ["histories", "inputs"],
 "all histories of registration, ping, completion, kill and experiment-creation requests",
 "The orchestrator has no tests.",
 ["experiments/orchestrator/orchestrator.js", "experiments/orchestrator/experiment.js", "experiments/orchestrator/worker.js", "experiments/orchestrator/main.js"],
 [("queues and position counters", "assignExperiment / assignWorker"), ("job description", "serialize"), ("configuration", "generateTableAndConfigurations")],
 ["HTTP handlers of the orchestrator"])

prop("C20", "Experiment life cycle: started, killed, finished and stored correctly",
 "Under any history an experiment is listed as waiting until all its roles are assigned, as working from then on, and as done exactly when all its clients and servers have reported (a client-driven baseline is cleaning up in between, once its client reported). Each report is stored unchanged in the file of the reporting role in its experiment's directory and nowhere else, and the worker is free again after reporting; a worker is told to stop exactly if, while it works on it, its experiment was killed or is a client-driven baseline whose client reported and it is one of its servers; it is asked for its log exactly while the operator waits for it. Storing experiments and loading them back, all or a selection, restores the same experiments with the same parameters; requests the orchestrator refuses (unknown mode, too few workers, unknown experiment) change nothing.",
 ["histories", "inputs"],
 "all histories of registration, ping, completion, kill, log, store, load and experiment-creation requests",
 "The orchestrator has no tests.",
 ["experiments/orchestrator/orchestrator.js", "experiments/orchestrator/experiment.js", "experiments/orchestrator/worker.js", "experiments/orchestrator/main.js", "experiments/orchestrator/cmd.js"],
 [("status transitions", "experiment.js finished / worker.js kill, finished, ready"), ("result files", "resultFile"), ("store and load", "cmd.js, toJSON / fromJSON")],
 ["HTTP handlers of the orchestrator", "operator command line", "result files"])

prop("C21", "Any server of a party can process any query of its batch",
 "In a party with several servers, a query may enter through a different server than the one that received its offline cipher: after the offline stage every server of the party, the last party included, holds every secret that reached any of its siblings, each exactly as received.",
 ["schedules", "inputs", "configurations"],
 "all splits of ciphers and queries over servers (including servers that receive none), sibling exchange schedules and batch sizes",
 "No test runs sibling servers.",
 [PP+"parallel_party_offline.cc", PR+"backend/backend_offline.cc", D+"sockets/parallel_socket.cc"],
 [("secret broadcast among siblings", "BroadcastSecrets")],
 ["queries and responses of a party whose secrets were installed through other servers"])

prop("C22", "Invalid invocations are refused; valid ones run the requested role and stage",
 "The program refuses, with a failure status and before contacting anyone, an invocation that lacks the configuration, stage, role, server number, a party's number or a client's query count, that names an unknown stage or role or a party or server outside the configuration, that asks for more queries than can be represented, or whose configuration file is missing or incomplete. A valid invocation performs exactly the requested role and stages with the requested number of queries: the offline stage alone makes no queries, the online stage alone exchanges no ciphers, and the combined stage does both.",
 ["inputs", "configurations"],
 "all combinations of present, absent, valid and invalid options",
 "No test runs the program.",
 [D+"main.cc"],
 [("flag validation and role dispatch", D+"main.cc main")],
 ["exit status, output, connection attempts"])

prop("C23", "A worker runs exactly the job it is given, and reports its complete output once",
 "A worker daemon registers once with its kind, asks for work only when it has no job, and runs each job it receives exactly once with the stated parameters (for DP-PIR role, position, stage, query count and the configuration downloaded for that job, never the 'WAIT' answer; for the baselines their addresses, ports, sizes, counts and types), reporting an unknown job without running anything. While the job runs it keeps asking whether to stop and answers each request for its log with the job's output so far; told to stop, it stops the job's processes. When the job ends or was stopped it reports, exactly once, the job's complete output (marked as killed if it was stopped), and then asks for work again.",
 ["histories", "schedules"],
 "any sequence of jobs, answers, program outputs, ends and stops, of any length",
 "No test runs the daemons; what matters is state left from earlier jobs and the interleaving of a job's end with the orchestrator's answers.",
 ["experiments/daemon_client.sh", "experiments/daemon_server.sh", "experiments/checklist", "experiments/sealpir"],
 [("job loop, kill and log handling", "experiments/daemon_client.sh"), ("job loop, kill and log handling", "experiments/daemon_server.sh"), ("baseline launchers", "experiments/checklist/run_client.sh, run_server.sh, stop.sh, experiments/sealpir/run.sh, stop.sh")],
 ["the requests the daemon makes, the programs it starts and with what, the logs it uploads, the processes it stops"])

prop("C24", "Figures and tables show exactly what the experiments measured",
 "For any set of result directories the plotting script shows, for each series and value of a description, the time stated in the report of the matching experiment, in seconds: for DP-PIR the offline or online time of a server of the first party, for Checklist the longest of its servers' times (whatever units they are written in), for SealPIR its server time. Results of other experiments and protocols and the order in which results are read have no influence. Points that were not measured are extrapolated only where the description allows it, from the last measured points (DP-PIR: the line through the last two; baselines: in proportion to the number of queries; in break-even figures Checklist's cost grows with the square root of the table), and break-even ratios and speedups follow from the measured costs. A missing measurement, or a report without exactly one time, is refused instead of drawn. The reports of the program itself, and the experiments and measurements that are shipped, suffice for this.",
 ["inputs", "histories", "configurations"],
 "any set of reports (complete, missing or unclear), parameters, directory order and description",
 "No test runs the plotting script; a wrong point looks as plausible as a right one.",
 ["experiments/plots/plot.py", "experiments/plots/descriptions", "experiments/orchestrator/stored", "experiments/measurements", PP+"parallel_party_online.cc", PR+"party/party_online.cc"],
 [("reading reports", "plot.py Series, ExtrapolateData, Table"), ("extrapolation and break-even ratios", "plot.py interpolate, read_ratio_data"), ("times reported", "StartOffline, StartOnline")],
 ["points passed to the drawing library, table cells, exit status", "reports on standard output"])

prop("C25", "The times a party reports are those of its own stage",
 "Every server of every party but the last reports the time of a stage exactly once, in whole milliseconds, and only for the stages that are run. The online time is what passes from when its whole party is ready and has all its queries until the whole party has all the responses to them. The offline time is what passes from when the whole party knows how many queries come until its successors are ready, and from when the whole party has all secrets until its successors are ready for the online stage. Waiting for the predecessor's batch, and anything after a stage such as sending the responses, is not charged, however long it takes; all servers of a party report the same stage boundaries.",
 ["schedules", "inputs", "configurations"],
 "any delivery order and any delays between any two messages, from milliseconds to days, for all numbers of parties, servers and queries and all stages",
 "No test runs a party; a time that includes waiting, or misses a part of the work, looks as plausible as a right one, and the paper's figures rest on it.",
 [PP+"parallel_party_online.cc", PP+"parallel_party_offline.cc", PR+"party/party_online.cc", PR+"party/party_offline.cc"],
 [("reading the clock at the boundaries of a stage", "StartOffline, StartOnline of Party and ParallelParty")],
 ["times on standard output of every server"])

prop("C26", "The baseline runners do the requested work and report what it took",
 "The SealPIR runner builds a table of exactly the requested number of random 8-byte rows, preprocesses it once, and makes exactly the requested number of queries one by one, each for a random row of the whole table, answered once by the server with the client's keys and decoded at the place of its own row. It reports, once each and in whole milliseconds of the sum, what preprocessing, making queries, answering them and handling responses took; parameters, keys and table generation are not charged. Without a table size or a number of queries it refuses to run. The Checklist runner connects to the two requested servers with the requested scheme, obtains one hint, and makes exactly the requested number of reads (10000 unless the last argument says otherwise), one after the other, of keys chosen among all the servers' keys. A read that fails is skipped and not charged; after a request to stop, whenever it comes once reading has begun, no further reads are made and the report is still written. The report states the sum of what the successful reads took, on a line of its own, and each server's own online time and traffic, as that server states them after the reads; the file of latencies, where asked for, holds one line for each successful read. If a server cannot be reached or the hint cannot be obtained, the runner fails without a report.",
 ["inputs", "schedules", "histories", "faults"],
 "any table size, number of requests, durations of every call, set of keys, failing reads, moment of a request to stop, and unreachable server",
 "No test runs the baselines (their libraries are not even built here); a phase charged to another one, or fewer queries than requested, looks as plausible as a right result and decides the comparison in the paper.",
 ["experiments/sealpir/main.cc", "experiments/checklist/main.go"],
 [("SealPIR: phases and their time", "experiments/sealpir/main.cc BENCHMARK, PreprocessTable, MakeQuery, HandleQuery, MakeOutput, main"), ("Checklist: reading, stopping and reporting", "experiments/checklist/main.go main")],
 ["calls of the runners into the libraries they measure", "report on standard output, exit status, file of latencies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
