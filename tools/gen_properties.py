#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here, emitted one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "At most one leader is ever elected in any term",
  "Over the whole life of a group, across every node, restart and membership change, no two different nodes act as leader of the same term. This holds with or without pre-vote, check-quorum and leadership transfer, for any loss, delay, duplication or reordering of messages.",
  ["schedules", "crash_points", "histories", "configurations"],
  "every interleaving of elections, messages (lost, late, repeated), crashes between persistence steps, and simple or joint membership changes",
  "The tests drive a few scripted elections through a synchronous in-memory network; they do not reach the schedules in which votes, restarts and configuration switches overlap.",
  ["src/raft.cc", "src/tracker/tracker.cc", "src/quorum/majority.cc", "src/quorum/joint.cc"],
  [("vote granting and tallying", "src/raft.cc Step/Poll/Campaign"), ("quorum decision", "src/quorum/*.cc VoteResult"), ("persisted vote", "src/rawnode.cc NewReady/MustSync")],
  [("term, vote", "current term and the candidate voted for", "src/raft.h"), ("votes", "votes received in the running election", "src/tracker/tracker.h")],
  ["soft state and status of every node", "messages in Ready"])

p("C02", "One up-to-date vote per term, and terms never go backwards",
  "In any given term a node grants its vote to at most one candidate, only to a candidate whose log is at least as up to date as its own, and never while it already knows a leader for that term. Its term never decreases, and neither its term nor its vote within a term is ever forgotten or changed across restarts from what was durably saved.",
  ["histories", "inputs", "crash_points"],
  "every local state (role, term, vote, known leader, log end) crossed with every incoming request, and every history of requests, restarts and elections",
  "Tests check a table of a dozen vote requests on hand-made nodes and never restart between vote and reply.",
  ["src/raft.cc", "src/log.cc", "src/rawnode.cc"],
  [("vote decision", "src/raft.cc Step"), ("log comparison", "src/log.cc IsUpToData"), ("term adoption and reset", "src/raft.cc Reset/BecomeFollower/BecomeCandidate")],
  [("vote", "who got this node's vote in the current term", "src/raft.h")],
  ["vote responses", "HardState in Ready", "status"])

p("C03", "Log matching and append-only leaders",
  "If two nodes' logs hold an entry with the same index and term, the entries are identical and so are all the entries before them (up to compaction). A node never overwrites or deletes entries of its own log while it is leader.",
  ["schedules", "histories", "crash_points"],
  "every reachable global state of a group, including after crashes, conflicting leaders, late appends and snapshot installs",
  "Tests compare logs at the end of single scripted runs, not in all intermediate states of all schedules.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc"],
  [("consistency check on append", "src/log.cc MaybeAppend/FindConflict"), ("suffix truncation", "src/log_unstable.cc TruncateAndAppend"), ("leader append", "src/raft.cc AppendEntry")],
  [("log", "stable + unstable entries", "src/log.h")],
  ["log contents of every node", "appended entries in Ready"])

p("C04", "All nodes apply the same entry at every index",
  "If any node hands the application an entry (or a snapshot covering it) at some index, no node ever hands its application a different entry at that index, even across restarts. Consequently all state machines go through the same sequence of states.",
  ["schedules", "crash_points", "histories", "configurations"],
  "every interleaving of elections, replication, crashes, snapshots and membership changes within the bounds",
  "Tests compare applied data in a handful of scripted runs with a lock-step network.",
  ["src/raft.cc", "src/log.cc", "src/rawnode.cc"],
  [("commit decision", "src/raft.cc MaybeCommit, src/log.cc MaybeCommit"), ("delivery to the application", "src/log.cc NextEnts, src/rawnode.cc NewReady")],
  [("committed/applied", "commit and apply cursors", "src/log.h")],
  ["committed entries and snapshots in Ready"])

p("C05", "Committed entries are never lost",
  "Once any node reports an entry as committed, that entry is present in the log or snapshot of every leader of every later term, and stays durably stored on a majority of the group in spite of any crashes and restarts. A commit index never moves backwards on a running node and never refers to entries the node does not have.",
  ["schedules", "crash_points", "fault_sequences"],
  "every schedule and every crash point between the persistence steps of any node, with pending unsynced writes lost",
  "Tests never crash a node between persistence steps and check leader completeness in a few hand-built logs only.",
  ["src/raft.cc", "src/log.cc", "src/rawnode.cc", "src/storage.cc"],
  [("election restriction", "src/raft.cc Step, src/log.cc IsUpToData"), ("commit rule", "src/raft.cc MaybeCommit"), ("persist before send", "src/rawnode.cc NewReady/MustSync")],
  [("committed", "highest index known committed", "src/log.h")],
  ["status commit", "leader logs", "disk contents"])

p("C06", "Each node applies committed entries in order, exactly once",
  "A node delivers to its application exactly the committed entries, in index order, without gaps or repetitions, resuming after the applied index it was restarted with, or continuing from the snapshot it was told to install. Delivery in size-limited pages never skips, reorders or starves entries, and nothing is delivered that is not committed.",
  ["histories", "inputs", "configurations"],
  "every history of appends, commits, page limits, snapshot installs and restarts with an applied index",
  "Tests check a few fixed page sizes and logs; they do not combine paging with truncation, snapshots and restarts.",
  ["src/log.cc", "src/rawnode.cc", "src/raft.cc", "src/util.cc"],
  [("selection of entries to apply", "src/log.cc NextEnts/HasNextEnts"), ("cursor update", "src/raft.cc Advance, src/log.cc AppliedTo")],
  [("applied", "index acknowledged by the application", "src/log.h")],
  ["committed entries and snapshot in successive Readys"])

p("C07", "An entry commits only on a current-term majority of voters",
  "A leader advances its commit index only to an entry of its own term that is durably stored on a majority of the voters of every active voter set (both halves of a joint configuration); learners and removed nodes never count, and older-term entries commit only through a newer one. Followers advance only as far as a current leader told them, and only over entries they have verified against that leader's log.",
  ["schedules", "configurations", "inputs"],
  "every combination of follower acknowledgements, terms and voter sets reachable in bounded histories",
  "Tests use small tables of match vectors and terms with simple majorities only, and never check durability on the acknowledging nodes.",
  ["src/raft.cc", "src/log.cc", "src/tracker/tracker.cc", "src/quorum/majority.cc", "src/quorum/joint.cc"],
  [("leader commit", "src/raft.cc MaybeCommit, src/tracker/tracker.cc Committed"), ("follower commit", "src/raft.cc HandleAppendEntries/HandleHearbeat, src/log.cc MaybeAppend/CommitTo")],
  [("match", "highest index known replicated per node", "src/tracker/progress.h")],
  ["status commit of every node versus disks of all nodes"])

p("C08", "Membership changes never split the group",
  "With configuration changes proposed at any moment (simple, joint explicit, joint auto-leave), at most one uncommitted-or-unapplied change is in the log of a leader beyond its applied index, a change that is refused becomes an empty entry, and nodes at the same applied index have the same configuration. While changes are in flight, elections and commits stay safe, an automatic joint change is eventually left without user action, and nobody campaigns with an unapplied committed change.",
  ["schedules", "configurations", "crash_points", "histories"],
  "every interleaving of change proposals with elections, transfers, crashes, restarts and message loss, in groups of 1 to 5 nodes",
  "Tests apply single changes on a healthy leader; overlapping changes, leader changes in the middle of a joint phase and restarts there are not reached.",
  ["src/raft.cc", "src/confchange/confchange.cc", "src/tracker/tracker.cc", "src/quorum/joint.cc"],
  [("refusal of overlapping changes", "src/raft.cc StepLeader MsgProp"), ("configuration switch", "src/raft.cc ApplyConfChange/SwitchToConfig"), ("auto leave", "src/raft.cc Advance"), ("campaign gate", "src/raft.cc Hup")],
  [("pending conf index", "index of the latest possibly unapplied change", "src/raft.h"), ("config", "incoming/outgoing voters, learners", "src/tracker/tracker.h")],
  ["ConfState returned when applying", "status config", "log entries"])

p("C09", "Configuration-change algebra and ConfState round trip",
  "Applying a change to a configuration yields exactly the specified voters, outgoing voters, learners and staged learners, keeps the invariants (no node both voter and learner, staged learners are outgoing voters, empty outgoing set unless joint), leaves no tracking record missing or extra, and refuses illegal changes (no voter left, wrong phase, more than one voter changed outside joint mode) without modifying its input. Restoring any legal ConfState reproduces the same configuration.",
  ["inputs", "programs"],
  "every configuration over up to 5 node ids and every change sequence up to a bounded length",
  "Tests are data-driven examples plus random simple sequences; they do not compare against an independent model on all configurations.",
  ["src/confchange/confchange.cc", "src/confchange/restore.cc", "src/tracker/tracker.cc", "src/raftpb/confstate.cc"],
  [("change algebra", "src/confchange/confchange.cc"), ("restore", "src/confchange/restore.cc")],
  [("config and progress map", "membership and per-node replication records", "src/tracker/tracker.h")],
  ["Changer results", "ConfState"])

p("C10", "Quorum arithmetic is exact",
  "The committed index computed for a voter set is the largest index acknowledged by a majority of it (of both halves when joint, and unbounded only for an empty set), and the result of a vote is won, lost or pending exactly when a majority has granted, can no longer grant, or neither. Both depend only on the votes and acknowledgements of members, and not on any other node or on ordering.",
  ["inputs"],
  "every voter set up to 9 members with every small acknowledgement/vote vector, and every pair of sets for joint quorums up to 5 ids",
  "Tests are example tables plus random comparison of the same code with a variant of it.",
  ["src/quorum/majority.cc", "src/quorum/joint.cc"],
  [("commit index", "MajorityConfig::CommittedIndex, JointConfig::CommittedIndex"), ("vote result", "MajorityConfig::VoteResult, JointConfig::VoteResult")],
  [], ["return values"])

p("C11", "Safe read-index requests are linearizable",
  "With the default safe read option, the index returned for a read request is never lower than any index committed anywhere in the group when the request was issued, no matter what was lost, delayed, duplicated or how leadership and membership changed meanwhile. The answer reaches the requesting node, carries that request's context, and is produced at most once per delivered request.",
  ["schedules", "histories", "configurations"],
  "every interleaving of read requests at leaders, deposed leaders and followers with commits, elections, membership changes and stale messages",
  "Tests serve reads on a healthy leader or drop whole nodes in two scripts; deposed leaders with late acknowledgements are not enumerated.",
  ["src/raft.cc", "src/read_only.cc"],
  [("quorum confirmation", "src/raft.cc StepLeader MsgReadIndex/MsgHeartbeatResp"), ("request queue", "src/read_only.cc"), ("own-term commit gate", "src/raft.cc CommittedEntryinCurrentTerm")],
  [("read-only queue", "pending reads with acknowledgements", "src/read_only.h")],
  ["read states in Ready", "MsgReadIndexResp"])

p("C12", "Crash at any point and restart preserves all promises",
  "If the application persists each Ready before sending its messages and may lose writes of a Ready that did not ask for a synchronous write, a node can crash at any point between these steps and restart from storage without contradicting any message it had sent: votes granted, entries acknowledged, and terms announced are still in force. Restarting never fails and never rolls back committed state.",
  ["crash_points", "histories", "fault_sequences"],
  "every crash point inside every Ready of every bounded history, with the last unsynced write kept or lost",
  "Restart tests build a node from a ready-made storage; no test crashes in the middle of a Ready or loses unsynced writes.",
  ["src/rawnode.cc", "src/raft.cc", "src/log.cc", "src/storage.cc"],
  [("what must be synced", "src/rawnode.cc MustSync/NewReady"), ("restart", "src/raft.cc New/LoadState, src/log.cc NewWithSize")],
  [("hard state", "term, vote, commit to persist", "src/raftpb/raft.proto")],
  ["Ready.hard_state/entries/snapshot/must_sync/messages versus disk"])

p("C13", "Replication flow control is respected",
  "Towards each peer a leader never has more than the configured number of unacknowledged append messages in flight while streaming, at most one unanswered append with entries while probing (until a heartbeat answer), and none while a snapshot is being transferred; each append message carries entries within the size limit (or one entry), directly following what was sent before. Acknowledgements, heartbeats, unreachable and snapshot reports release exactly the blocked traffic, so that a peer is never left paused for good.",
  ["inputs", "histories", "configurations"],
  "every sequence up to a bounded depth of proposals, acknowledgements, rejections, heartbeats and reports from a peer, for small window and message sizes",
  "Three tests check the window with fixed sequences; interleavings of probe, stream and snapshot phases are not covered.",
  ["src/raft.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc"],
  [("progress state machine", "src/tracker/progress.cc"), ("window", "src/tracker/inflights.cc"), ("sending", "src/raft.cc MaybeSendAppend")],
  [("inflights", "sliding window of sent appends", "src/tracker/inflights.h"), ("probe_sent / pending_snapshot", "pause flags", "src/tracker/progress.h")],
  ["MsgApp/MsgSnap stream to each peer", "progress in status"])

p("C14", "The uncommitted-log quota admits exactly what it should",
  "A leader refuses a proposal exactly when the payload of the not-yet-applied proposals it accepted in its term (entries inherited from earlier leaderships aside) is non-zero and adding the proposal would exceed the configured limit; empty entries are never refused, and applied entries release exactly their own size. A refused proposal leaves no trace, and the quota starts afresh with each leadership.",
  ["inputs", "histories"],
  "every sequence of proposals of various sizes, commits, applications and leadership changes up to a bounded depth",
  "One test fills the quota once with equal-sized entries on a fixed schedule.",
  ["src/raft.cc", "src/util.cc"],
  [("accounting", "src/raft.cc IncreaseUncommittedSize/ReduceUncommittedSize/Advance/Reset")],
  [("uncommitted size", "estimated payload of the uncommitted tail", "src/raft.h")],
  ["Propose result", "log", "UncommittedSize"])

p("C15", "The log behaves as one sequence over storage and memory",
  "Reading terms, slices (with size limits), first and last index, and appending, truncating, stabilising and restoring snapshots all behave as on a single in-memory sequence of entries, regardless of which part is already in storage, compacted, or pending. Entries once handed out for persisting or applying are not changed behind the caller's back, and acknowledging persistence of entries that were meanwhile replaced never drops the replacement.",
  ["inputs", "programs"],
  "every sequence of log operations up to a bounded length with every split between storage, unstable tail and snapshot",
  "Tests are tables of single operations on a handful of fixed logs.",
  ["src/log.cc", "src/log_unstable.cc"],
  [("combined view", "src/log.cc Slice/Term/FirstIndex/LastIndex"), ("unstable tail", "src/log_unstable.cc")],
  [("unstable offset/entries/snapshot", "not yet persisted suffix", "src/log_unstable.h")],
  ["return values of the log operations", "Ready contents"])

p("C16", "In-memory storage behaves as a log with snapshots",
  "Every sequence of append, compact, create-snapshot, apply-snapshot and reads on the in-memory storage agrees with a simple sequential log: appends overwrite the conflicting suffix and ignore the compacted prefix, compacted and missing ranges give the documented errors, reads honour the size limit but return at least one entry, and old snapshots are refused without effect. A snapshot once returned or applied never changes afterwards.",
  ["inputs", "programs"],
  "every sequence of storage calls up to a bounded length over small index ranges",
  "Tests are single-call tables on one fixed three-entry log.",
  ["src/storage.cc"],
  [("log array with dummy head", "src/storage.cc Append/Compact/Entries/Term"), ("snapshot handling", "src/storage.cc CreateSnapshot/ApplySnapshot/SnapShot")],
  [("ents, snapshot", "stored entries and latest snapshot", "src/storage.h")],
  ["return values"])

p("C17", "In-memory storage is linearizable under concurrent use",
  "Operations on one in-memory storage from several threads (for example raft reading while the application appends, compacts and takes snapshots) each take effect atomically, are free of data races and deadlocks, and the results are those of some sequential order of the calls. Values returned earlier stay valid and unchanged while other threads continue.",
  ["schedules", "programs"],
  "every interleaving of two to three threads with one to three calls each, for all pairs and selected triples of calls",
  "No test uses the storage from more than one thread.",
  ["src/storage.cc", "src/storage.h"],
  [("reader/writer lock", "src/storage.cc all methods")],
  [("mutex", "protects all fields", "src/storage.h")],
  ["return values of concurrent calls"])

p("C18", "Lagging nodes catch up by snapshot",
  "A follower or new member that needs entries the leader has compacted is sent a non-empty snapshot and, once it has installed it, ends with the leader's log position and the snapshot's configuration, losing nothing it had acknowledged. Outdated or repeated snapshots, failure reports, temporarily unavailable snapshots, and crashes in between never wedge replication or roll a node back.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of compaction, snapshot sending, loss, duplication, late delivery, failure reports and crash/restart within bounds",
  "Tests check one transition of the progress state each; complete transfers with losses and concurrent appends are not explored.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/tracker/progress.cc", "src/confchange/restore.cc"],
  [("sending", "src/raft.cc MaybeSendAppend"), ("installing", "src/raft.cc HandleSnapshot/Restore, src/log.cc Restore"), ("resuming", "src/raft.cc StepLeader MsgAppResp/MsgSnapStatus")],
  [("pending snapshot", "index of the snapshot in transit", "src/tracker/progress.h")],
  ["MsgSnap/MsgAppResp", "snapshot in Ready", "log and configuration of the follower"])

p("C19", "Leadership transfer hands over safely or gives up",
  "A transfer request to an up-to-date reachable voter makes it leader in a higher term; until it completes or is abandoned (at the latest after one election timeout, or when the target is removed or the leader steps down) the old leader accepts no proposals. A transfer never elects a node missing committed entries, a learner or an unknown node is never chosen, and a failed transfer leaves the old leader fully working.",
  ["schedules", "histories"],
  "every point at which transfers are requested, repeated, redirected or interrupted by loss, timeouts, membership changes",
  "Tests cover a list of single scenarios on a perfect network.",
  ["src/raft.cc"],
  [("transfer handling", "src/raft.cc StepLeader MsgTransferLeader/MsgAppResp, TickHeartbeat, SwitchToConfig"), ("forced campaign", "src/raft.cc StepFollower MsgTimeoutNow, Hup")],
  [("lead transferee", "target of the running transfer", "src/raft.h")],
  ["MsgTimeoutNow", "Propose result", "status"])

p("C20", "Pre-vote never disturbs the group",
  "With pre-vote on, asking for or granting a pre-vote changes no node's term or vote and gives no say in real elections; a node raises its term for an election of its own only after a quorum of its current voters granted it a pre-vote for exactly that next term, or when told to take over leadership. A partitioned node that rejoins therefore does not depose a live leader that a quorum still follows (check-quorum on).",
  ["schedules", "histories", "inputs"],
  "every interleaving of timeouts, pre-vote requests and answers (late, duplicated, from earlier attempts) in groups of 2 to 4 nodes",
  "Tests run a few scripted partitions.",
  ["src/raft.cc", "src/tracker/tracker.cc"],
  [("pre-candidate", "src/raft.cc BecomePreCandidate/Campaign/StepCandidate"), ("pre-vote answers", "src/raft.cc Step")],
  [("votes", "pre-votes received", "src/tracker/tracker.h")],
  ["term and vote of all nodes", "MsgVote emission"])

p("C21", "Check-quorum: isolated leaders step down, leases are honoured",
  "With check-quorum on, a leader that has not heard from a quorum of every active voter set steps down within two election timeouts, and one that keeps hearing from a quorum never steps down for that reason. A node that heard from a live leader within the last election timeout ignores vote and pre-vote requests of higher terms, except those of a leadership transfer.",
  ["schedules", "histories", "inputs"],
  "every pattern of ticks and contacts from each peer over several election timeouts, and every request arriving at every tick of the lease",
  "Tests check a few fixed tick counts with all-or-nothing connectivity.",
  ["src/raft.cc", "src/tracker/tracker.cc"],
  [("activity check", "src/raft.cc StepLeader MsgCheckQuorum/TickHeartbeat, src/tracker/tracker.cc QuorumActive"), ("lease", "src/raft.cc Step")],
  [("recent active", "peer heard from since the last check", "src/tracker/progress.h")],
  ["state and term of nodes per tick"])

p("C22", "Learners replicate but never decide",
  "A learner receives and applies the log like any node, but never starts an election, is never counted for election, commit, read or check-quorum decisions, and cannot be chosen as transfer target until promoted. Promotion and demotion take effect exactly when the configuration change is applied.",
  ["schedules", "configurations", "histories"],
  "every interleaving of learner acknowledgements, votes and heartbeat answers with those of voters, and of promotion/demotion with elections",
  "Tests cover single scenarios with one learner.",
  ["src/raft.cc", "src/tracker/tracker.cc", "src/confchange/confchange.cc"],
  [("promotable check", "src/raft.cc Promotable/Hup"), ("quorums over voters only", "src/tracker/tracker.cc"), ("role switch", "src/raft.cc SwitchToConfig")],
  [("is learner", "local role and per-peer role", "src/raft.h, src/tracker/progress.h")],
  ["elections, commits and reads in groups with learners"])

p("C23", "A healed group always converges",
  "From every reachable state, if crashed nodes restart, messages flow again and timers fire, a leader is elected, a new proposal commits and is applied on every member, and all members end with the same log and configuration within a bounded number of rounds. No history of losses, partitions, crashes, snapshots, transfers or membership changes leaves the group stuck while a majority is alive. (Across membership changes this needs pre-vote or check-quorum, as in the Raft dissertation: without them a member that cannot campaign yet may have seen a higher term than the leader's; likewise check-quorum must be on for all members or none, except members using pre-vote; and applications must serve snapshots that include the members they are sent to.)",
  ["histories", "fault_sequences", "configurations"],
  "every state reachable in the bounded histories of all exploration flavours, each followed by a fault-free suffix",
  "Tests check progress only from a few end states.",
  ["src/raft.cc", "src/tracker/progress.cc", "src/tracker/tracker.cc"],
  [("retry and probing", "src/raft.cc StepLeader MsgAppResp/MsgHeartbeatResp"), ("stuck-node handling", "src/raft.cc Step lower-term answers"), ("election timers", "src/raft.cc TickElection")],
  [], ["status and applied state of all nodes"])

p("C24", "The Ready contract: complete, once, and quiet when done",
  "A node announces pending work exactly when a Ready taken now would contain something (state change, entries, committed entries, snapshot, messages, read states), looking at a Ready has no effect, and every message, read state and state change is handed out exactly once. After a Ready is processed and advanced with no new input, its entries, snapshot and committed entries are not handed out again, and the node becomes quiet. What a Ready handed out (entries, messages, snapshot) is never modified by the node afterwards, so another thread may keep reading it while the node goes on.",
  ["histories", "inputs"],
  "every reachable node state, with inputs arriving before, between and after taking and advancing a Ready",
  "Tests inspect a few Readys in straight-line scripts.",
  ["src/rawnode.cc", "src/raft.cc", "src/log.cc"],
  [("Ready construction", "src/rawnode.cc NewReady/HasReady/AcceptReady/Advance"), ("cursor updates", "src/raft.cc Advance")],
  [("previous soft/hard state", "what was last handed out", "src/rawnode.h")],
  ["Ready and HasReady results"])

p("C25", "Proposals are appended intact exactly once, or refused cleanly",
  "A proposal accepted by a leader appears in its log exactly once, unmodified, after everything it accepted before, and is eventually applied unless that leader loses its position; a refused proposal leaves no entry anywhere. Followers forward proposals unchanged to the leader they know, and refuse them when there is none or forwarding is disabled; candidates always refuse.",
  ["histories", "schedules", "inputs"],
  "every sequence of proposals (single, batched, empty, configuration changes) in every role, during transfers, elections, quota exhaustion and message loss",
  "Tests propose in fixed situations, one at a time.",
  ["src/raft.cc", "src/rawnode.cc", "src/util.cc"],
  [("leader append", "src/raft.cc StepLeader MsgProp/AppendEntry"), ("forwarding", "src/raft.cc StepFollower MsgProp")],
  [], ["Propose result", "log of the leader", "forwarded MsgProp"])

p("C26", "No legal history makes a node abort",
  "A node that is driven according to the documented contract never aborts, crashes, loops for ever or corrupts memory, whatever messages other correct nodes have sent, and however these are lost, delayed, duplicated or reordered, including reports about unknown peers, requests for unknown nodes and restarts. Local-only message types and answers from unknown nodes arriving from the network are refused with an error and without effect.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every bounded history of all exploration flavours, plus every API call in every reachable role",
  "Tests never deliver stale or duplicated messages systematically, and abort conditions are only tested where expected.",
  ["src/raft.cc", "src/rawnode.cc", "src/log.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc"],
  [("internal assertions", "CRAFT_LOG_FATAL and assert throughout src/"), ("input filtering", "src/rawnode.cc Step, src/util.cc IsLocalMsg/IsResponseMsg")],
  [], ["process survival", "Step result"])

p("C27", "Configuration changes survive encoding, and bad text is refused",
  "A configuration change encoded for the log, in either format, decodes to the same changes, transition mode and context, and both formats take effect identically. The textual form round-trips for every list of changes, and malformed text (bad prefix, missing, non-numeric, signed, trailing or overflowing id) is refused rather than turned into some change.",
  ["inputs"],
  "every change list up to 3 changes over all change types and small ids and every transition mode, and every text up to 4 characters over the relevant alphabet",
  "Tests check a few literals.",
  ["src/raftpb/confchange.cc", "src/rawnode.cc"],
  [("encoding", "src/raftpb/confchange.cc ConfChangeI::Marshal/AsV1/AsV2"), ("joint decision", "src/raftpb/confchange.cc EnterJoint/LeaveJoint"), ("text", "src/raftpb/confchange.cc ConfChangesFromString/ConfChangesToString")],
  [], ["return values"])

p("C28", "Bootstrap starts identical groups and refuses used storage",
  "Bootstrapping a node on empty storage with a list of peers makes it start at term 1 with one committed membership entry per peer, delivered to the application for saving and applying, so that all nodes started with the same list agree on the configuration and can elect a leader at once. An empty list, or a storage that already has entries or a snapshot, is refused with an error and without effect.",
  ["configurations", "inputs", "schedules"],
  "every peer list up to 5 nodes (including contexts, non-members), every initial storage content, followed by every bounded schedule",
  "Tests bootstrap one single-node group on empty storage.",
  ["src/rawnode.cc", "src/rawnode.h"],
  [("bootstrap", "src/rawnode.cc Bootstrap")],
  [], ["Status of Bootstrap", "first Readys", "configuration"])

p("C29", "Separate nodes can run on separate threads",
  "Two nodes that share no storage, logger or message objects do not share any mutable state, so driving each from its own thread is free of data races and gives each the same results as driving it alone; this also holds when nodes of one group run in threads of their own and hand each other the messages they produce.",
  ["schedules", "programs"],
  "every interleaving at synchronisation points of two threads each running a complete short node history, with a race check on every memory access",
  "All tests are single-threaded.",
  ["src/raft.cc", "src/util.cc", "src/rawnode.cc"],
  [("per-thread random source", "src/util.cc Random"), ("constant globals", "src/raft.cc"), ("per-instance state", "src/raft.h")],
  [], ["memory accesses", "results"])

p("C30", "Timers: randomized elections and steady heartbeats",
  "A follower or candidate starts an election exactly when the ticks since it last heard from its leader, granted a vote, started an election or changed term reach its randomized timeout, which lies in [T, 2T-1] for election tick T, is drawn afresh whenever it becomes follower or candidate or its term changes, and takes every value in that range. A leader sends heartbeats every heartbeat-tick ticks to every other member and never campaigns; quiesced ticks only advance the clock.",
  ["inputs", "histories"],
  "every tick count and message arrival pattern over several timeouts for all small tick configurations and every timeout value",
  "Tests sample random timeouts and check fixed tick counts.",
  ["src/raft.cc", "src/util.cc"],
  [("ticking", "src/raft.cc TickElection/TickHeartbeat/PastElectionTimeout"), ("randomization", "src/raft.cc ResetRandomizedElectionTimeout, src/util.cc Random")],
  [("election elapsed", "ticks since last reset", "src/raft.h")],
  ["MsgVote/MsgHeartbeat emission per tick"])

p("C31", "Status reports the truth and cannot damage the node",
  "Status, basic status and progress visits report the node's actual id, term, vote, commit, applied index, role, leader, transfer target, configuration and (on a leader only) replication progress of exactly the members, marking learners. They change nothing, and changing the returned data does not affect the node.",
  ["histories", "inputs"],
  "every reachable node state in the bounded histories",
  "One test checks the presence of fields on a single-node group.",
  ["src/rawnode.cc", "src/tracker/progress.cc", "src/tracker/tracker.cc"],
  [("status", "src/rawnode.cc GetStatus/GetBasicStatus/WithProgress"), ("deep copy", "src/tracker/progress.cc Clone, src/tracker/inflights.cc Clone")],
  [], ["returned status objects"])

p("C32", "Followers accept exactly the appends that extend a matching log",
  "A follower accepts an append of the current term exactly when it has the preceding entry with the stated term (or has committed past it); it then holds the message's entries, keeps any later entries that do not conflict, removes a suffix only on a real conflict, never touches committed entries, and acknowledges exactly the last index covered. Otherwise it changes nothing and answers with a hint at or above the true last common position, so that the leader's probing reaches it in finitely many steps, at most one per distinct term.",
  ["inputs", "histories"],
  "every pair of leader and follower logs up to a bounded length and term, and every append message built from them (including stale ones)",
  "Tests use tables of a few logs and messages.",
  ["src/raft.cc", "src/log.cc", "src/log_unstable.cc"],
  [("acceptance", "src/raft.cc HandleAppendEntries, src/log.cc MaybeAppend/FindConflict"), ("hints", "src/log.cc FindConflictByTerm, src/raft.cc StepLeader MsgAppResp, src/tracker/progress.cc MaybeDecrTo")],
  [], ["MsgAppResp", "log after the message"])

p("C33", "Starting from storage reproduces the stored state; bad parameters are refused",
  "A node created over a storage starts as a follower that knows no leader, with exactly the stored term, vote, commit index, log, snapshot position and membership (voters, outgoing voters, learners, staged learners and the automatic-leave flag); it applies the committed entries after the configured applied index, once and in order, and re-applies nothing at or below it. Its first Ready holds nothing that is already stored. Parameters that make no sense (node id zero, non-positive ticks, election tick not above heartbeat tick, no storage, zero inflight limit, lease-based reads without check-quorum, a stored commit index beyond the stored log) are refused at creation.",
  ["inputs", "crash_points"],
  "every combination of small stored logs, snapshot positions, hard states, memberships and configuration values",
  "Tests start from a couple of fixed storages.",
  ["src/raft.cc", "src/log.cc", "src/rawnode.cc", "src/confchange/restore.cc"],
  [("creation", "src/raft.cc Raft::New, Raft::LoadState, Raft::Config::Validate"), ("log position", "src/log.cc RaftLog::NewWithSize"), ("membership", "src/confchange/restore.cc")],
  [("hard state", "term, vote, commit", "src/raft.cc")], ["first Ready", "status after creation"])

p("C34", "Lease-based reads are answered by current leaders at once, exactly once",
  "With the lease-based read option, a leader that has committed an entry of its term answers a read request at once with its commit index, without a round of heartbeats; before that it keeps the request and answers it when that first commit happens (stepping down forgets it). Every answer goes to the requesting node with the request's context, once per delivery of the request. Other nodes never answer by themselves: they pass the request on to the leader they know, or drop it. A leader that lost contact with a quorum for two election timeouts answers nothing, and while no newer leader exists an answer is never older than anything committed when the request was issued.",
  ["schedules", "histories", "inputs"],
  "every bounded history of read requests, acknowledgements, ticks, elections, transfers and membership changes, over plain and joint configurations",
  "Tests check one lease read per role on a healthy three-node group.",
  ["src/raft.cc", "src/read_only.cc"],
  [("answering", "src/raft.cc StepLeader MsgReadIndex, SendMsgReadIndexResponse, ResponseToReadIndexReq"), ("gate", "src/raft.cc CommittedEntryinCurrentTerm, ReleasePendingReadIndexMessages"), ("lease", "src/raft.cc TickHeartbeat, StepLeader MsgCheckQuorum")],
  [("pending reads", "requests before the first commit of the term", "src/raft.h pending_read_index_messages_")], ["ReadState in Ready", "MsgReadIndexResp"])

p("C35", "Messages state the sender's true position and each request gets one answer",
  "Every message a node sends is addressed to another node, names its true sender (proposals, read requests and transfer requests that are passed on go to the leader the node follows) and carries the sender's current term (a pre-vote request the next term, a granted pre-vote the term it was asked for, proposals and read requests none). A vote or pre-vote request goes once to every other voter, states the true end of the sender's log and is marked as a transfer exactly when the sender was told to take over. Only leaders send appends, heartbeats, snapshots and takeover messages: an append is anchored at an entry of the leader's log and carries the entries that follow it there; commit indexes announced never exceed the leader's own, in a heartbeat it is the smaller of the leader's commit index and the receiver's acknowledged index; a snapshot is committed history and only sent when the log no longer holds what the receiver needs; a takeover message goes only to the fully caught-up transfer target. Acknowledgements and hints name entries the sender holds. A member answers every append, heartbeat, snapshot, vote and pre-vote request of its own or a newer term with exactly one message to the one that sent it (vote requests may be ignored only while check-quorum is on and a leader is known); a message of an older term changes nothing at the receiver and is answered only where that tells the sender about the newer term.",
  ["histories", "schedules", "inputs"],
  "every message queued by every library call in every bounded history of elections, proposals, partitions, late and duplicated messages, crashes, snapshots, transfers, reads and membership changes",
  "Tests look at selected fields of selected messages.",
  ["src/raft.cc", "src/rawnode.cc"],
  [("sending", "src/raft.cc Send/MaybeSendAppend/SendHeartbeat/SendTimeoutNow/Campaign"), ("answers", "src/raft.cc Step, HandleAppendEntries, HandleHearbeat, HandleSnapshot")],
  [("outgoing messages", "created since the last Ready", "src/raft.h msgs_")], ["messages in Ready"])

p("C36", "Behaviour does not depend on how large ids, positions and terms are",
  "Node ids, log indexes and terms are 64-bit numbers of which only order and equality (and, for positions, distance) matter. A node living with small numbers and one whose ids, log positions and terms are all moved up - beyond 2^31, 2^32 or 2^63, or to ids that agree in their low 32 bits - given the same inputs moved the same way produce, mapped back, the same messages, Readys, statuses, membership, answers and refusals. The same holds for the in-memory storage at any position, for the text form of ids, and for flow-control windows of any size.",
  ["inputs", "histories"],
  "every bounded sequence of messages, calls, restarts and compactions, in plain and joint configurations, under several ways of moving the numbers",
  "Tests use ids below 10 and positions and terms below a few hundred.",
  ["src/raft.cc", "src/raft.h", "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/read_only.cc", "src/quorum/majority.cc", "src/raftpb/confchange.cc"],
  [("node state", "src/raft.h Raft members"), ("log positions", "src/log.h, src/log_unstable.h, src/storage.cc"), ("progress", "src/tracker/progress.h"), ("ids in text", "src/raftpb/confchange.cc ConfChangesFromString")],
  [("numbers", "ids, indexes, terms, window sizes", "src/raft.h, src/log.h, src/tracker")], ["messages", "Ready", "status"])

p("C37", "Memory stays sound: no stray access, no leak, no growth in the steady state",
  "However a node is used within its contract, the library never reads or writes memory it does not own or has already given back, and never relies on undefined arithmetic. A node that is destroyed gives back everything it took. A node that goes through the same rounds over and over - proposals applied and compacted away, reads answered or abandoned, elections won and lost, transfers, members added and removed, snapshots, refused proposals - holds no more memory after many repetitions than after a few.",
  ["histories", "inputs"],
  "every bounded sequence of rounds, repeated; and every input sequence of the component explorations, run with memory checking",
  "Tests run once over short histories and look at results, not at memory.",
  ["src/raft.cc", "src/log_unstable.cc", "src/read_only.cc", "src/tracker/tracker.cc", "src/tracker/inflights.cc", "src/storage.cc", "src/confchange/confchange.cc", "src/rawnode.cc"],
  [("queues", "src/raft.h msgs_, read_states_, pending_read_index_messages_"), ("reads", "src/read_only.cc Advance"), ("progress of removed members", "src/tracker/tracker.h, src/confchange/confchange.cc"), ("unstable log", "src/log_unstable.cc StableTo"), ("window", "src/tracker/inflights.cc")],
  [("memory held", "everything allocated by a node", "src/raft.h, src/log_unstable.h, src/read_only.h, src/tracker")], ["bytes in use", "sanitizer reports"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
