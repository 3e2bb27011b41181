#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator so that the text stays valid JSON).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=list(observe)
    P.append(d)

p('C01','Acknowledged writes are never lost',
 "A write acknowledged to a client by a cluster is contained in the data served by every later leader and in every up-to-date replica, across any sequence of leader changes, partitions, process crashes and restarts in which no majority loses what it had made durable. With the fsync policy 'always' this includes simultaneous power loss of every node; with the other policies, killing processes never loses an acknowledged write.",
 ['schedules','crash_points','fault_sequences','histories'],
 "every interleaving of client writes, replication, elections, crashes (kill and power loss), restarts and partitions, for every fsync policy, on clusters of 1-5 nodes",
 "Unit and e2e tests use three healthy in-process nodes on fixed scenarios; they cannot place a crash or a partition at every point between journal write, acknowledgement, commit and apply. None of the cluster tests even builds in this environment.",
 ['src/raft/RaftDispatcher.cc','src/raft/RaftReplicator.cc','src/raft/RaftWriteTracker.cc','src/raft/RaftJournal.cc','src/raft/RaftCommitTracker.cc','src/StateMachine.cc'],
 [('append to journal before acknowledgement','RaftWriteTracker::append'),('quorum commit','RaftCommitTracker::recalculateCommit'),('write options / fsync policy','RaftJournal::commitBatch'),('conflict truncation','RaftJournal::removeEntries')],
 [('logSize / commitIndex','length and committed prefix of the replicated log','RaftJournal')],
 ['RESP replies to clients','journal and state-machine contents on disk'])
p('C02','Client operations through the cluster are linearizable',
 "Every history of client reads and writes answered with a data reply by the cluster is linearizable with respect to a single sequential copy of the data; operations answered with an error or not answered may have taken effect at most once. This holds while leaders change, nodes crash and messages are delayed, for all clients that do not ask for stale reads.",
 ['schedules','fault_sequences','histories','crash_points'],
 "every client history with concurrent clients over leader changes, partitions, delays, stalls and crashes",
 "Tests check single request/response pairs on a stable leader; overlapping histories over leadership changes are never recorded nor checked.",
 ['src/raft/RaftDispatcher.cc','src/raft/RaftWriteTracker.cc','src/raft/RaftLease.cc','src/raft/RaftBlockedWrites.cc','src/Dispatcher.cc','src/Connection.cc'],
 [('read waits for own pending writes','RaftWriteTracker / Connection::addPendingRequest'),('leader lease check before serving','RaftDispatcher::service'),('leadership marker before service','RaftDispatcher::service')],
 observe=['recorded client history'])
p('C03','At most one leader per term; votes and terms survive crashes',
 "In any term at most one node acts as leader, every node grants its vote to at most one candidate per term even if it crashes and restarts in between, and no node's term ever decreases. A node's recorded term, vote and observed leader always move forward consistently: observing a leader for a term forbids any later vote or different leader in that term.",
 ['schedules','crash_points','fault_sequences','histories'],
 "every interleaving of concurrent vote requests, heartbeats and term observations on one node and across nodes, with crash or power loss at any point",
 "Raft_State.T1 drives one fixed sequence from a single thread and one clean reopen; it never races two threads, nor cuts the power between state update and persistence.",
 ['src/raft/RaftState.cc','src/raft/RaftJournal.cc','src/raft/RaftDispatcher.cc','src/raft/RaftDirector.cc','src/raft/RaftVoteRegistry.cc'],
 [('grant vote','RaftState::grantVote'),('observe term/leader','RaftState::observed'),('persist term and vote','RaftJournal::setCurrentTerm'),('ascend','RaftState::ascend')],
 [('term, votedFor, leader','current election knowledge of the node','RaftState / RaftJournal')],
 ['vote replies on the wire','raft state snapshots','journal keys on disk'])
p('C04','Committed log entries never change, diverge or get skipped',
 "Once any node has marked a log position as committed, no node ever holds a different committed entry at that position, overwrites it or un-commits it, and the commit position of a node never decreases, including across restarts. Two logs that contain an entry with the same position and term are identical up to that position.",
 ['schedules','crash_points','fault_sequences','histories'],
 "every interleaving of replication streams, elections, conflicting suffix removal, crashes and restarts",
 "Journal tests apply hand-written entry sequences single-threaded; replicator tests use scripted pollers. Divergent suffixes produced by real elections are not exercised.",
 ['src/raft/RaftJournal.cc','src/raft/RaftDispatcher.cc','src/raft/RaftReplicator.cc','src/raft/RaftCommitTracker.cc','src/raft/RaftUtils.cc'],
 [('appendEntries consistency check','RaftDispatcher::appendEntries'),('inconsistent entry removal','RaftJournal::removeEntries'),('commit index','RaftJournal::setCommitIndex')],
 [('journal entries','term + request per index','RaftJournal')],
 ['journal contents on every node after each disk write'])
p('C05','Replicas apply the committed log deterministically and exactly once',
 "The data held by a node is exactly the result of applying each committed command once, in log order, to an empty store, no matter where the node crashed, restarted or was resilvered. Two nodes that have applied the same number of log entries hold identical data, including lease and clock state.",
 ['schedules','crash_points','fault_sequences','histories','inputs'],
 "every command mix, every crash point between applying an entry and recording it as applied, every restart and resilvering",
 "State-machine tests compare selected replies on one instance; replicas are compared nowhere byte for byte and no test crashes between apply and the applied index.",
 ['src/StateMachine.cc','src/storage/StagingArea.hh','src/raft/RaftWriteTracker.cc','src/Dispatcher.cc'],
 [('atomic apply + last-applied','StateMachine::commitTransaction / StagingArea::commit'),('deterministic dispatch','RedisDispatcher::dispatchWrite')],
 [('lastApplied','number of log entries reflected in the data','StateMachine')],
 ['state machine contents and last-applied'])
p('C06','The cluster recovers and serves within bounded time after faults stop',
 "Once faults stop and a majority of full members is running and connected, the cluster elects a leader, accepts and commits new writes, answers every connected client request, and brings every reachable member to the same log position, all within a bounded number of election timeouts. No earlier sequence of faults, vetoes, slow nodes or membership changes can leave it permanently stuck.",
 ['schedules','fault_sequences','histories'],
 "every sequence of faults and schedules followed by a quiet period",
 "Tests wait on healthy clusters; they cannot produce the schedules (lost wake-ups, stuck replicators, blocked writers, permanent election embargo) that wedge a node.",
 ['src/raft/RaftDirector.cc','src/raft/RaftReplicator.cc','src/raft/RaftReplicator.cc','src/raft/RaftVoteRegistry.cc','src/raft/RaftWriteTracker.cc','src/utils/AssistedThread.hh'],
 [('election timer','RaftDirector::actAsFollower'),('replica tracker loop','RaftReplicaTracker::main'),('commit applier','RaftWriteTracker::commitApplier')],
 observe=['client replies','raft-info style status of every node'])
p('C07','Only a leader backed by a live quorum serves; others redirect or refuse',
 "A node answers ordinary reads and writes only while it is leader and has recently heard from a quorum; a leader cut off from its quorum stops acknowledging anything and steps down within its leader-lease period of simulated time, in spite of clock differences smaller than that period. A node that is not leader answers with a redirect to the leader it knows or an unavailability error, except for connections which explicitly asked for stale reads.",
 ['schedules','fault_sequences','histories'],
 "every pattern of one-way and two-way partitions, slow links, stalled nodes and leadership changes",
 "Tests toggle leaders on healthy links; no test isolates a leader, delays its heartbeats and reads through it at the same time.",
 ['src/raft/RaftLease.cc','src/raft/RaftDirector.cc','src/raft/RaftDispatcher.cc','src/raft/RaftReplicator.cc'],
 [('lease deadline','RaftLease::getDeadline'),('step down','RaftDirector::leaderLoop'),('redirect','RaftDispatcher::service')],
 observe=['client replies','leader intervals of each node'])
p('C08','Membership changes never break agreement or availability rules',
 "Membership is changed one logged update at a time, a new update is refused until the previous one has committed, and quorums are always computed over the full members of the latest logged membership (for entries up to and including a membership update, the directly preceding membership is equally safe and allowed), observers never counting. Observers and removed nodes never vote for themselves into leadership, and at no time do two disjoint quorums commit conflicting entries, even if a membership entry is rolled back by a leader change or a crash.",
 ['schedules','crash_points','fault_sequences','histories'],
 "every sequence of add-observer, promote, demote and remove requests racing with leader changes, crashes and log truncation",
 "Membership tests apply updates on a stable leader; rolled-back membership entries and crash between update and commit are only covered for one hand-written journal.",
 ['src/raft/RaftJournal.cc','src/raft/RaftMembers.hh','src/raft/RaftDispatcher.cc','src/raft/RaftReplicator.cc'],
 [('membership update','RaftJournal::membershipUpdate'),('rollback on truncation','RaftJournal::removeEntries'),('quorum computation','RaftUtils calculateQuorumSize')],
 [('membership epoch','log index of the active membership','RaftJournal')],
 ['replies to membership commands','journal membership keys'])
p('C09','Lagging or new replicas are rebuilt completely or not at all',
 "A replica whose missing entries were trimmed from the leader receives a full copy of a consistent snapshot and afterwards equals the leader's state at that point; if the copy is interrupted by a crash, a disconnect, a leader change or a disk error, the replica keeps serving its previous contents and stays repairable. Trimming never removes an entry that is not yet committed and applied, leaves the log contiguous, and never prevents a node from restarting.",
 ['schedules','crash_points','fault_sequences','histories'],
 "every interruption point of the copy and of trimming: crash of source or target, lost connection, write error, full disk, concurrent writes and restarts",
 "One test resilvers one node on a healthy disk; interrupted, racing or failing resilverings are untested.",
 ['src/raft/RaftResilverer.cc','src/raft/RaftTrimmer.cc','src/ShardDirectory.cc','src/Shard.cc','src/utils/Resilvering.cc','src/raft/RaftJournal.cc'],
 [('copy files','RaftResilverer::copyDirectory'),('switch over','ShardDirectory::resilveringFinish'),('trim','RaftJournal::trimUntil'),('trim block','RaftTrimmer / RaftTrimmingBlock')],
 observe=['contents of the replica directory','raft status','journal start and size'])
p('C10','Every pipelined request gets exactly one reply, in order',
 "Each request received on a connection is answered exactly once and in the order received, whatever the segmentation of the byte stream, the pipelining depth, batching of writes, and leadership changes while requests are pending. A reply always belongs to its own request, and when a node loses leadership all its pending requests are answered rather than forgotten.",
 ['schedules','inputs','fault_sequences','histories'],
 "every segmentation of request streams into reads, every pipelining depth and command mix, every moment of leadership loss or disconnect",
 "Tests send whole requests on healthy connections; partial reads at arbitrary byte boundaries with blocked writes and step-downs in between are not sampled.",
 ['src/Connection.cc','src/RedisParser.cc','src/BufferedReader.cc','src/BufferedWriter.cc','src/redis/MultiHandler.cc','src/raft/RaftBlockedWrites.cc','src/raft/RaftWriteTracker.cc','src/Formatter.cc'],
 [('pending queue','Connection::PendingQueue'),('parser state machine','RedisParser::fetch'),('batched phantom transactions','Connection::processRequests')],
 observe=['bytes received by clients'])
p('C11','Data commands behave like their sequential specification',
 "For every history of commands the replies and the visible contents equal those of a simple in-memory model of strings, hashes, sets, deques, locality hashes and versioned hashes; a command used against a key of another type fails without changing anything, sizes always equal the number of stored elements, and scans return every element that was present throughout exactly once. The contents are unchanged by a crash and restart at any point after the reply, and concurrent readers always see the state between two complete commands.",
 ['inputs','histories','schedules','crash_points'],
 "every command history over a small key space (with awkward keys and values), with restarts, compactions and concurrent snapshot readers in between",
 "Unit tests cover chosen sequences per command; interaction of commands over histories, restarts and concurrent readers is not covered (and the state machine tests do not build here).",
 ['src/StateMachine.cc','src/storage/KeyDescriptor.hh','src/storage/KeyLocators.hh','src/storage/ReverseLocator.hh','src/storage/InternalKeyParsing.cc','src/Dispatcher.cc','src/Formatter.cc','src/Commands.cc'],
 [('write operations','StateMachine::WriteOperation'),('key layout','KeyLocators'),('reply formatting','Formatter')],
 observe=['replies to commands','consistency scan of the store'])
p('C12','Transactions are atomic and isolated',
 "A transaction block is applied completely or not at all, its replies equal those of executing its commands one after another without interleaving (apart from the version numbers of versioned hashes, which advance once per transaction), and no other client, reader or crash ever observes or leaves part of it. Batching of independent pipelined writes never changes any reply or result compared with executing them one by one (again apart from versioned-hash version numbers), and a transaction survives being stored in and replayed from the log unchanged.",
 ['schedules','crash_points','histories','inputs'],
 "every mix of transactions and plain commands from several clients, crashes within application, any request contents including binary",
 "MultiHandler tests run one client on a healthy node; atomicity against concurrent readers, replay and crashes is not tested.",
 ['src/redis/MultiHandler.cc','src/redis/Transaction.cc','src/Dispatcher.cc','src/storage/StagingArea.hh','src/Connection.cc'],
 [('queueing','MultiHandler::process'),('serialization','Transaction::serialize/deserialize'),('single staging area','RedisDispatcher::dispatch(Transaction)')],
 observe=['transaction replies','state seen by concurrent readers'])
p('C13','A lease has at most one holder and expires on a never-backwards clock',
 "At any point of the log a lease is held by at most one holder; it is granted or renewed only if free, expired or already held by the requester, and it expires no earlier than its duration after the last grant as measured by the cluster's replicated clock. That clock never runs backwards, not even across leader changes, restarts, clock skew or jumps of the nodes, and every replica agrees on all lease outcomes. While a node serves, the clock follows the real time which passes, also when no request arrives: a lease which is not renewed is free once its duration has passed, a restart does not reset it, and the remaining time reported is right.",
 ['schedules','histories','fault_sequences','crash_points'],
 "every sequence of acquire, release, get and expiry over leader changes, restarts and skewed or jumping node clocks",
 "Lease tests pass explicit timestamps on one state machine; clock continuity over failover and pause is not exercised.",
 ['src/StateMachine.cc','src/Timekeeper.cc','src/storage/ExpirationEventCache.cc','src/storage/ExpirationEventIterator.cc','src/redis/LeaseFilter.cc','src/storage/LeaseInfo.hh','src/utils/ClockWrapper.hh'],
 [('timestamped transmutation','LeaseFilter::transform'),('clock advance','StateMachine::advanceClock'),('dynamic clock','Timekeeper::synchronize')],
 [('lease info and expiration events','holder, last renewal, deadline; index by deadline','StateMachine')],
 ['lease replies','expiration events in the store'])
p('C14','Subscribers get every matching message once, in publication order',
 "Every message published while a subscription is active is delivered exactly once per matching subscription, in publication order per channel, and nothing is delivered for channels not subscribed to or after an unsubscribe was confirmed. Versioned-hash watchers receive each revision of the hash exactly once with consecutive versions, carrying exactly the fields changed by that transaction, so that replaying them reproduces the hash.",
 ['schedules','histories','fault_sequences'],
 "every interleaving of subscribe, unsubscribe, publish, disconnect and hash updates from several connections",
 "Publisher tests are single threaded; concurrent (un)subscribe, purge of dead connections and publication are not explored.",
 ['src/pubsub/Publisher.cc','src/pubsub/ThreadSafeMultiMap.hh','src/pubsub/SimplePatternMatcher.hh','src/pubsub/SubscriptionTracker.cc','src/storage/VersionedHashRevisionTracker.cc','src/StateMachine.cc'],
 [('registration map','ThreadSafeMultiMap'),('revision publication','Publisher::schedulePublishing'),('revision build','VersionedHashRevisionTracker')],
 observe=['push messages on subscriber connections'])
p('C15','The journal survives a crash at any point with a consistent prefix',
 "After a kill or power loss at any instant the journal reopens successfully with contiguous entries from its start to its end, commit position within that range, non-decreasing entry terms not above its current term, and membership and cluster identity matching the retained entries. Nothing acknowledged as durable under the fsync policy in force is missing: not one entry, vote, term, membership change or trim is half applied.",
 ['crash_points','fault_sequences','histories','schedules'],
 "every operation history on the journal (append, commit, truncate, trim, term/vote, membership, policy changes, concurrent readers) crossed with a crash at every storage operation, torn and lost unsynced writes",
 "RaftJournal tests reopen after clean shutdown only.",
 ['src/raft/RaftJournal.cc','src/utils/FsyncThread.cc','src/storage/KeyConstants.cc'],
 [('atomic batches','RaftJournal::commitBatch'),('fsync policy','RaftJournal::commitBatch/FsyncThread'),('recovery','RaftJournal::initialize')],
 [('journal keys','term, vote, log size/start, commit, membership, cluster id','RaftJournal')],
 ['journal API after reopening'])
p('C16','Nothing is served before authentication; challenges cannot be replayed',
 "When a password is configured, a connection that has not proved knowledge of it gets an authentication error for every other command and causes no effect, at any interleaving with other connections and regardless of pipelining or transactions. A challenge response is accepted only for the latest challenge issued on that same connection and only within its validity period, whatever the clock does, and nodes and clients with the right password always get in.",
 ['schedules','inputs','histories','fault_sequences'],
 "every sequence of auth attempts, challenge generation/validation with delays and clock jumps, replays across connections, and pipelined commands around them",
 "Authenticator tests check one challenge at fixed times; gate bypass by pipelining or transactions over real connections is not covered.",
 ['src/redis/Authenticator.cc','src/auth/AuthenticationDispatcher.cc','src/QuarkDBNode.cc','src/Connection.cc','src/redis/MultiHandler.cc'],
 [('challenge','Authenticator::generateChallenge/validateSignature'),('gate','QuarkDBNode::isAuthenticated')],
 observe=['replies and effects on unauthenticated connections'])
p('C17','Internal traffic is accepted only from members of the same cluster',
 "Consensus and resilvering requests have an effect only on connections which completed the handshake with the matching cluster identity and timeouts, and internal commands sent by ordinary clients are refused. A node of another cluster, or one forcibly wiped and reconfigured, can never vote in, lead or overwrite this cluster, however messages and addresses are mixed up.",
 ['schedules','inputs','histories','fault_sequences'],
 "every mix of clients and foreign nodes sending internal commands, with and without (wrong) handshakes, before and after membership or leader changes",
 "One test checks a wrong cluster id on one RPC.",
 ['src/raft/RaftDispatcher.cc','src/raft/RaftTalker.cc','src/redis/InternalFilter.cc','src/Shard.cc','src/Connection.cc'],
 [('handshake','RaftDispatcher::dispatch RAFT_HANDSHAKE'),('internal filter','InternalFilter::process')],
 observe=['replies to internal commands','state changes on the node'])
p('C18','Directory operations are all-or-nothing under crashes and disk errors',
 "Creating a database, taking a snapshot or checkpoint, replacing contents by a resilvering and loading in bulk (finalized with requests still in flight, everything acknowledged and nothing refused included) either complete and can be opened with exactly the source contents, or report an error and leave existing data untouched and openable; a snapshot which failed or was released leaves nothing behind. This holds when any file operation fails, is short, or the process dies or loses power at any point in between, and a reported success means the data is really there. A snapshot contains the whole history up to one point: log and contents of the same moment, whatever is written meanwhile.",
 ['crash_points','fault_sequences','configurations'],
 "every file-system operation of each procedure failing (I/O error, short write, full disk, unreadable file) or being the last before a crash",
 "Tests run on a healthy disk; no error path of file operations is exercised.",
 ['src/ShardDirectory.cc','src/utils/FileUtils.cc','src/utils/DirectoryIterator.cc','src/utils/Resilvering.cc','src/Configuration.cc','src/config/ConfigurationReader.cc','src/StateMachine.cc'],
 [('create','ShardDirectory::create'),('checkpoint','ShardDirectory::checkpoint/takeSnapshot'),('switch','ShardDirectory::resilveringFinish'),('file write','write_file')],
 observe=['directory contents and reopened instances','returned errors'])
p('C19','No client input can take a node down or wedge it',
 "Whatever bytes, commands, argument counts, argument contents and key types clients send, a node keeps running, answers each well-formed request with a reply or an error, and keeps serving other clients; malformed protocol data at most closes the offending connection. No accepted command can become a log entry that stops the nodes applying it.",
 ['inputs','schedules','histories'],
 "every request of the command table with arbitrary arguments, against keys of every type, inside and outside transactions, and arbitrary malformed byte streams",
 "Tests send well-formed requests plus a few argument-count errors.",
 ['src/RedisParser.cc','src/Connection.cc','src/QuarkDBNode.cc','src/Dispatcher.cc','src/StateMachine.cc','src/redis/Transaction.cc','src/redis/InternalFilter.cc','src/Commands.cc'],
 [('parser','RedisParser::fetch'),('dispatch','RedisDispatcher::dispatch'),('argument checks','errArgs')],
 observe=['liveness of the node after the input','replies'])
p('C20','Background threads and in-flight work shut down cleanly',
 "Stopping, detaching or replacing a component at any moment finishes within bounded time, waits for the requests in flight, admits no new ones afterwards, and leaves no thread that touches what was freed. No wake-up is lost: work handed to a background thread is always picked up, and periodic work keeps its period under any schedule.",
 ['schedules','fault_sequences'],
 "every interleaving of start, stop, notify, in-flight registration and use from several threads",
 "Thread tests run under the OS scheduler, which samples a handful of interleavings.",
 ['src/utils/AssistedThread.hh','src/utils/InFlightTracker.hh','src/utils/FsyncThread.cc','src/storage/ConsistencyScanner.cc','src/storage/ParanoidManifestChecker.cc','src/Shard.cc','src/raft/RaftGroup.cc','src/utils/CoreLocalArray.hh'],
 [('thread assistant','AssistedThread / ThreadAssistant'),('in-flight accounting','InFlightTracker'),('group teardown','RaftGroup::spindown')],
 observe=['termination, join order, heap integrity in the simulator'])
p('C21','Operation counters neither lose nor invent requests',
 "The sum of all reported request counters and their per-interval history equals the requests actually processed, for every number of threads, cores and schedule; each request is counted once in its class, and no interval is dropped or reported twice while the counters roll over. A MONITOR connection is shown every request handed to the shard after its registration exactly once, in the order of the connection which sent it, and no other monitor's departure or slowness changes that.",
 ['schedules','histories'],
 "every interleaving of accounting threads with the aggregation thread and readers, on any core layout and clock behaviour",
 "Tests account from a single thread.",
 ['src/utils/RequestCounter.cc','src/utils/Statistics.cc','src/utils/CoreLocalArray.hh','src/redis/CommandMonitor.cc','src/Shard.cc'],
 [('per-core counters','CoreLocalArray'),('roll-over','RequestCounter::mainThread / HistoricalStatistics')],
 observe=['command-stats output'])
p('C22','Health reports tell the truth and background checks run on time',
 "The health of a node is the worst of its indicators, and each indicator follows the facts: the free disk space as it is when asked for, against the documented thresholds (red at 1 GiB or below 3 %, yellow at 5 GiB or below 10 %, red when it cannot be determined); a manifest which lags the newest data file by an hour or more, within one check period; whether the node is in contact with the leader of a working quorum; and on the leader, whether one more failure would cost the quorum, and which replicas are reachable and up to date. Each turns within seconds (a check period for the manifest) of the change, and clears once the cause is gone; all nodes which are part of the quorum name the same, reachable leader, and QUARKDB_HEALTH, QUARKDB_INFO and RAFT_INFO agree. Background checksum scans run once per configured period (12 hours unless configured to something valid), on every node and no matter the load, stop the node when its store is corrupt and only then, and never keep writes from succeeding.",
 ['schedules','fault_sequences','histories'],
 "every timing of disk changes, failing system calls, manifest and data ages, node failures, partitions, stalls and clock jumps relative to the checks, in standalone nodes and clusters of up to five nodes and an observer; cluster indicators are judged once the cluster had time to react, the others at any time; the health of a cluster of two voters is not expected to warn",
 "Health tests check the arithmetic of indicator levels only, and no test waits for a background check.",
 ['src/storage/ParanoidManifestChecker.cc','src/storage/ConsistencyScanner.cc','src/health/HealthIndicator.hh','src/raft/RaftReplicator.cc','src/raft/RaftLease.cc','src/raft/RaftDispatcher.cc','src/StateMachine.cc','src/StandaloneGroup.cc','src/QuarkDBNode.cc'],
 [('manifest check','ParanoidManifestChecker::compareMTimes'),('scan period','ConsistencyScanner::obtainScanPeriod'),('cluster indicators','RaftDispatcher::getHealth'),('quorum at risk','RaftLease::getShakyQuorumDeadline'),('disk space','StateMachine::getFreeSpaceHealth')],
 observe=['health replies','times of background scans'])
p('C23','Configuration and secrets load completely or the node refuses to start',
 "A node started from a configuration file and password file either runs with exactly the settings and password those files contain or refuses to start; unreadable, truncated, failing or too openly readable files never lead to a running node with weaker or default settings.",
 ['fault_sequences','inputs','crash_points'],
 "every read failing or returning short, every file mode, file replaced or missing between checks",
 "Configuration tests parse complete strings; file errors are not simulated.",
 ['src/Configuration.cc','src/config/ConfigurationReader.cc','src/utils/FileUtils.cc','src/QuarkDBNode.cc'],
 [('load','Configuration::fromFile'),('password','Configuration::extractPasswordOrDie'),('permission check','areFilePermissionsSecure')],
 observe=['node start result and effective settings'])
p('C24','Offline recovery edits are applied exactly and durably',
 "Recovery-mode edits change exactly the requested raw keys of a journal or state machine, are durable once acknowledged, and listings of raw keys are complete or an error; a forcibly reconfigured journal starts as the requested cluster with its data intact; a crash at any point leaves either the old or the new configuration, never a mixture. Recovery commands are refused by nodes not in recovery mode and ordinary commands by the recovery server.",
 ['crash_points','fault_sequences','histories'],
 "every recovery command history with crashes and storage failures in between",
 "RecoveryEditor tests apply a few edits and reopen cleanly.",
 ['src/recovery/RecoveryEditor.cc','src/recovery/RecoveryDispatcher.cc','src/recovery/RecoveryRunner.cc'],
 [('raw edits','RecoveryEditor'),('forced reconfiguration','RecoveryDispatcher::dispatch')],
 observe=['reopened journal / state machine'])
p('P01','Stored key encoding is injective, order-preserving and reversible',
 "Distinct logical keys, fields and elements never share a stored key, and decoding a stored key gives back what was encoded; numbers in keys sort in numeric order.",
 ['inputs'],
 "every key, field and number",
 "Tests cover selected strings and brute force up to short lengths; it is a pure function of its input.",
 ['src/storage/KeyLocators.hh','src/storage/ReverseLocator.hh','src/utils/IntToBinaryString.hh','src/storage/InternalKeyParsing.cc'],
 [('escaping','appendEscapedString'),('decoding','EscapedPrefixExtractor')])
P.sort(key=lambda d:d['id'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
