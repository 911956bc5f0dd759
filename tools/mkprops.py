import json
S="omnipaxos/src/"
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}}
ALL=[S+"sequence_paxos/leader.rs",S+"sequence_paxos/follower.rs",S+"sequence_paxos/mod.rs",S+"storage/internal_storage.rs",S+"util.rs"]
R=[
p("C01","Agreement: one decided log for all servers",
 "If two servers of a configuration have both decided position i of the log, they decided the same entry (or stopsign) there, so every decided log is a prefix of one single log. Every decided entry was proposed by some client, and a single proposal takes at most one position.",
 ["schedules","crash_points","histories","configurations"],"every interleaving of message deliveries, losses, reconnections, crashes and restarts, every cluster size and valid quorum choice, every entry type",
 "The integration tests run a handful of schedules with real-time components; they cannot enumerate delivery orders or crash points across leader changes.",
 ALL,[("a leader adopts the log of the highest round among a read quorum","sequence_paxos/leader.rs handle_majority_promises"),("followers take their leader's log on AcceptSync and append in sequence","sequence_paxos/follower.rs"),("decide only what a write quorum accepted","sequence_paxos/leader.rs handle_accepted")],
 [("decided_idx","length of the decided log","storage/state_cache.rs"),("accepted_round","round in which the log was last accepted","storage")],["OmniPaxos::read_decided_suffix","OmniPaxos::get_decided_idx"]),
p("C02","A promise never goes back and is durable before it is given",
 "The ballot a server has promised never decreases, neither while it runs nor across a crash and restart. Before a promise or an acceptance in a ballot leaves a server, that ballot is already stored as its promise, so a restarted server never takes part in a lower ballot than one it answered for.",
 ["crash_points","histories","schedules"],"every sequence of prepares and leader changes with a crash between any two storage writes",
 "Crash tests restart a server once at a quiet point; no test crashes between two writes or checks what was already sent.",
 [S+"sequence_paxos/follower.rs",S+"sequence_paxos/leader.rs",S+"storage/internal_storage.rs",S+"ballot_leader_election.rs"],
 [("promise written through to storage before the Promise message is queued","sequence_paxos/follower.rs handle_prepare"),("new leader persists its own ballot first","sequence_paxos/leader.rs handle_leader"),("total order on ballots","ballot_leader_election.rs Ballot")],
 [("promise","highest ballot promised","Storage::get_promise")],["outgoing Promise messages","Storage::set_promise","OmniPaxos::get_promise"]),
p("C03","No server acts for a ballot lower than the one it promised",
 "After a server has promised a ballot it never appends, overwrites or decides log entries on behalf of a lower ballot: messages of lower ballots leave its log, decided index and promise unchanged, and at most tell the sender of the higher ballot. A server acts as leader only in its own ballot and only while that ballot equals its promise.",
 ["schedules","inputs","histories"],"every late, duplicated or reordered message of any older leader, in every state of the receiver",
 "Tests rarely deliver messages of a deposed leader, and never in every phase of the receiver.",
 [S+"sequence_paxos/mod.rs",S+"sequence_paxos/follower.rs",S+"sequence_paxos/leader.rs"],
 [("check_valid_ballot","sequence_paxos/mod.rs"),("leader handlers compare the message's ballot with their own","sequence_paxos/leader.rs"),("step down on a higher ballot","sequence_paxos/mod.rs")],
 [("state","role and phase of the server","sequence_paxos/mod.rs")],["log and decided index after handle_incoming"]),
p("C04","Within a ballot, entries are accepted in the leader's order without gaps",
 "The log of a follower that has synchronised with a leader in a ballot is, at every moment of that ballot, a prefix of that leader's log: entries are appended in the leader's order, none twice, none skipped, whatever messages were lost, batched or sent in an earlier session. An acceptance reports an index up to which the follower has really stored the leader's entries.",
 ["schedules","fault_sequences","histories"],"every loss, reordering and session change on the link between leader and follower, every batch size",
 "Needs dropped messages at specific positions followed by reconnects; tests use reliable in-order links.",
 [S+"sequence_paxos/follower.rs",S+"sequence_paxos/leader.rs",S+"util.rs"],
 [("sequence numbers per follower and session","util.rs SequenceNumber/LeaderState"),("a gap triggers a new Prepare round","sequence_paxos/follower.rs"),("batched messages are extended in place","sequence_paxos/leader.rs send_acceptdecide")],
 [("current_seq_num","next expected message of the leader","sequence_paxos/mod.rs")],["follower log versus leader log","outgoing Accepted messages"]),
p("C05","Decided entries are permanent",
 "A server's decided index never decreases, never exceeds the length of its log, and the entries below it never change or disappear other than into a snapshot or trim that covers them, also across log synchronisation, leader change and restart.",
 ["histories","crash_points","schedules"],"every history of syncs, leader changes, compactions and restarts",
 "Tests read the decided log a few times at the end of a run; they do not check it after each step of adversarial histories.",
 [S+"storage/internal_storage.rs",S+"sequence_paxos/follower.rs",S+"sequence_paxos/leader.rs"],
 [("decided index only moves forward","storage/internal_storage.rs"),("sync replaces only the undecided suffix","storage/internal_storage.rs sync_log")],
 [("decided_idx","number of decided entries","Storage::get_decided_idx")],["OmniPaxos::get_decided_idx","OmniPaxos::read_decided_suffix"]),
p("C06","An entry is decided only after a write quorum stored it",
 "A server considers a log position decided only if a write quorum of servers (a majority unless a flexible quorum is configured) has stored that position of the same log in the deciding ballot. Acceptances of other ballots, of the same server counted twice, or of shorter logs never contribute.",
 ["schedules","configurations","histories"],"every order of acceptances, every cluster size and flexible quorum",
 "With three reliable servers any off-by-one in quorum counting still decides the same entries.",
 [S+"sequence_paxos/leader.rs",S+"util.rs"],
 [("LeaderState::is_chosen","util.rs"),("handle_accepted","sequence_paxos/leader.rs"),("Quorum","util.rs")],
 [("accepted_indexes","highest index accepted per follower in this ballot","util.rs LeaderState")],["OmniPaxos::get_decided_idx of the leader"]),
p("C07","A new leader recovers everything that may have been decided",
 "When a server starts leading a ballot, its log contains every entry that a write quorum accepted in any earlier ballot, because it adopts the most up-to-date log among the promises of a read quorum that includes itself. It proposes nothing before that, and loses no entry it had accepted from clients while waiting.",
 ["schedules","histories","configurations","crash_points"],"every combination of logs and accepted rounds in the promises, every order of their arrival, every quorum size",
 "Requires diverging logs of specific shapes across failed leaders; tests only have one clean failover.",
 [S+"sequence_paxos/leader.rs",S+"util.rs",S+"storage/internal_storage.rs"],
 [("maximum promise by (round, length)","util.rs LeaderState::set_promise"),("majority before Accept","sequence_paxos/leader.rs handle_promise_prepare/handle_majority_promises")],
 [("max_promise_meta","most up-to-date promise so far","util.rs LeaderState")],["log of the leader when it enters the Accept phase"]),
p("C08","Synchronising a follower gives it exactly the leader's log",
 "After a follower applies a leader's synchronisation message its log (trimmed or snapshotted part, entries and stopsign) represents the same sequence as the leader's log at the time of sending, for every combination of log lengths, decided indexes, compaction points and stopsigns on both sides. Nothing the follower had accepted beyond the common prefix survives.",
 ["inputs","histories","schedules"],"every pair of leader log and follower log that can arise, with and without snapshots and stopsigns",
 "The interesting cases combine compaction on either side, stopsigns and stale metadata; tests cover two or three of them.",
 [S+"sequence_paxos/mod.rs",S+"sequence_paxos/leader.rs",S+"storage/internal_storage.rs"],
 [("create_log_sync","sequence_paxos/mod.rs"),("send_accsync chooses the common prefix","sequence_paxos/leader.rs"),("sync_log","storage/internal_storage.rs")],
 [],["follower log after AcceptSync"]),
p("C09","Only configurations with intersecting quorums are accepted",
 "A configuration is accepted only if every read quorum intersects every write quorum, quorums are no larger than the cluster, and the server and its peers are proper members; every other configuration is refused with an error before anything runs. With the default setting both quorums are majorities of all members.",
 ["configurations","inputs"],"every cluster size, quorum pair, member list and server id",
 "Tests try a few valid clusters.",
 [S+"util.rs",S+"omni_paxos.rs"],
 [("ClusterConfig::validate, OmniPaxosConfig::validate","omni_paxos.rs"),("Quorum::with, is_prepare_quorum, is_accept_quorum","util.rs")],
 [],["ClusterConfig::build_for_server"]),
p("C10","Leader election only names live, quorum-connected, unique ballots",
 "A server becomes leader only with a ballot that carries its own id and that no other server can hold, and only if in the heartbeat round it just finished it heard from a read quorum, itself included. The leader ballot a server follows never goes backwards while it runs, and a server that holds the highest connected ballot is not deposed.",
 ["schedules","histories","configurations"],"every pattern of partial connectivity, delayed or stale heartbeat replies, ballot and priority values",
 "Partial connectivity tests use three fixed topologies and wall-clock timers.",
 [S+"ballot_leader_election.rs",S+"omni_paxos.rs"],
 [("hb_timeout / check_leader / check_takeover","ballot_leader_election.rs"),("replies of other rounds are ignored","ballot_leader_election.rs handle_reply")],
 [("current_ballot","own ballot","ballot_leader_election.rs"),("heartbeat_replies","replies of this round","ballot_leader_election.rs")],["OmniPaxos::get_current_leader","outgoing Prepare messages"]),
p("C11","Reads return exactly the log, correctly labelled",
 "Reading any range of the log returns, in order, exactly one item per log position of the range: decided entries labelled decided, the others undecided, the compacted part as one trimmed or snapshotted marker covering it, the stopsign with its decided flag. A range that reaches outside the log yields nothing, and reading never changes anything.",
 ["inputs","histories"],"every range, every combination of compacted, decided and accepted index, with and without stopsign",
 "Tests read whole logs or suffixes; boundaries at the compacted index, the decided index and the stopsign are not enumerated.",
 [S+"storage/internal_storage.rs",S+"omni_paxos.rs",S+"sequence_paxos/mod.rs"],
 [("InternalStorage::read, read_decided_suffix","storage/internal_storage.rs")],[],["OmniPaxos::read","OmniPaxos::read_entries","OmniPaxos::read_decided_suffix"]),
p("C12","Compaction only removes what is decided everywhere it must be",
 "A trim removes only entries that every server of the configuration has accepted and that are decided locally; a snapshot covers only locally decided entries and represents exactly the decided prefix it replaces. The compacted index never decreases, never exceeds the decided index, and all later entries stay readable unchanged.",
 ["histories","schedules","inputs"],"every compaction request at every index on every server, interleaved with replication, syncs and crashes",
 "Tests compact once after everything is decided everywhere.",
 [S+"sequence_paxos/mod.rs",S+"storage/internal_storage.rs",S+"sequence_paxos/leader.rs"],
 [("trim checks the minimum of all accepted indexes","sequence_paxos/mod.rs"),("try_trim / try_snapshot bound by decided index","storage/internal_storage.rs"),("delta snapshots merged on top of the own one","storage/internal_storage.rs sync_log")],
 [("compacted_idx","entries removed from the front","Storage::get_compacted_idx")],["OmniPaxos::trim","OmniPaxos::snapshot","OmniPaxos::get_compacted_idx"]),
p("C13","A stopsign seals its configuration",
 "Once a stopsign is in a server's log nothing is appended after it in that ballot, further entries and reconfigurations are refused with an error that hands them back, and if a stopsign is decided it is the last entry of the decided log on every server. The server reports the configuration as ended exactly when the stopsign is decided.",
 ["schedules","histories","crash_points"],"every interleaving of appends, forwarded proposals and reconfiguration with leader changes and syncs",
 "Tests propose one stopsign on a quiet cluster.",
 [S+"sequence_paxos/mod.rs",S+"sequence_paxos/leader.rs",S+"sequence_paxos/follower.rs",S+"storage/internal_storage.rs"],
 [("accepted_reconfiguration guards propose paths","sequence_paxos/mod.rs"),("stopsign counted as last log position","storage/internal_storage.rs")],
 [("stopsign","stopsign at the end of the log","storage/state_cache.rs")],["OmniPaxos::append","OmniPaxos::reconfigure","OmniPaxos::is_reconfigured"]),
p("C14","A restarted server continues from exactly what it had stored",
 "After a crash at any point and a restart on the same storage, the server has the promise, accepted round, log, stopsign, snapshot, compacted and decided index that its storage held, and it rejoins as a follower in recovery that leads no ballot until it is elected again. The storage contents at any crash point form a consistent state.",
 ["crash_points","histories"],"a crash between any two storage operations of any history",
 "Recovery tests stop a server at a quiet point with everything flushed.",
 [S+"sequence_paxos/mod.rs",S+"storage/internal_storage.rs",S+"storage/state_cache.rs"],
 [("InternalStorage::with / load_cache","storage/internal_storage.rs"),("SequencePaxos::with","sequence_paxos/mod.rs"),("atomic write of a whole sync","Storage::write_atomically")],
 [],["OmniPaxos getters right after build"]),
p("C15","Storage backends keep what they are told",
 "The in-memory and the persistent storage return exactly what was last written: each write changes only what it names, entry indexes are stable across trims, an operation on a range returns exactly the stored entries of that range, and a group of operations written atomically takes effect completely and in order, or, if it fails, not at all. The persistent one returns the same after it is reopened.",
 ["inputs","histories","crash_points"],"every sequence of storage operations, with trims, prefix overwrites, empty arguments and reopening at any point",
 "Storage tests use a few operations through a whole cluster.",
 ["omnipaxos_storage/src/memory_storage.rs","omnipaxos_storage/src/persistent_storage.rs",S+"storage/mod.rs"],
 [("impl Storage for MemoryStorage","omnipaxos_storage/src/memory_storage.rs"),("impl Storage for PersistentStorage","omnipaxos_storage/src/persistent_storage.rs")],
 [("trimmed_idx","first index still in the log","both backends")],["Storage trait methods"]),
p("C16","Batching delays entries but never loses, duplicates or reorders them",
 "Entries accepted for the log and held in a batch are written to the log exactly once, in the order they were appended, at the latest when the batch is full, the flush timer fires, a stopsign is appended, or the server moves to another ballot. Messages merged while waiting to be sent carry the same entries in the same order as if sent one by one.",
 ["schedules","configurations","histories"],"every batch size and every interleaving of appends, flushes, ticks, elections and outgoing takes",
 "Batch tests append a multiple of the batch size on a stable leader.",
 [S+"storage/state_cache.rs",S+"storage/internal_storage.rs",S+"sequence_paxos/leader.rs",S+"sequence_paxos/follower.rs"],
 [("StateCache batch","storage/state_cache.rs"),("flush_batch*","storage/internal_storage.rs"),("flush on ballot change","sequence_paxos/follower.rs, leader.rs")],
 [("batched_entries","entries not yet in the log","storage/state_cache.rs")],["log contents after each call"]),
p("C17","UniCache decoding restores exactly the entries that were encoded",
 "With UniCache enabled, every entry a follower stores equals the entry its leader appended: whatever was evicted, and whenever the follower joined or the leader changed, decoding an encoded field gives back the original value.",
 ["inputs","histories","schedules"],"every sequence of field values, cache size and policy, with cache hand-over at any point",
 "One test with fresh caches and more capacity than distinct values.",
 [S+"unicache/lru_cache.rs",S+"unicache/lfu_cache.rs",S+"unicache/lfu/mod.rs",S+"storage/state_cache.rs",S+"storage/internal_storage.rs"],
 [("encoder and decoder evict in lockstep","unicache/*.rs"),("the leader's cache is copied to a follower on synchronisation","sequence_paxos/leader.rs send_accsync")],
 [],["entries in the follower's log"]),
p("C18","Protocol-conforming input never makes a server panic",
 "No sequence of API calls, ticks and messages from other correct servers (late, lost, repeated across sessions, from any ballot) makes a server panic, index outside its log or underflow an index; calls with unusable arguments are answered with an error or nothing.",
 ["inputs","schedules","histories","fault_sequences"],"every state of the server and every message another correct server may send in any state",
 "Panics hide in rare combinations (stale messages after compaction, stopsign at the end of a range); tests do not reach them.",
 ALL+[S+"omni_paxos.rs",S+"ballot_leader_election.rs"],
 [("index arithmetic and expect() in the handlers","sequence_paxos/*.rs, storage/internal_storage.rs")],[],["any public call"]),
p("C19","Progress with a quorum-connected server",
 "If some server stays connected to a quorum and messages between them eventually arrive, then proposed entries are eventually decided.",
 ["schedules","fault_sequences"],"every fair schedule",
 "Eventuality over infinite schedules.",
 [S+"ballot_leader_election.rs",S+"omni_paxos.rs",S+"sequence_paxos/mod.rs"],
 [("heartbeats, takeover, resend timers","ballot_leader_election.rs, sequence_paxos/mod.rs")],[],["OmniPaxos::get_decided_idx"]),
]
open('/verif/properties.jsonl','w').write("".join(json.dumps(r)+"\n" for r in R))
for r in R: assert len(r["title"])<=80, r["id"]
