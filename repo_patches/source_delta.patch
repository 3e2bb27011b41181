From 93d7055b4c6a038900094ecdb606dddc21736842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 01/63] fix: SISMEMBER inside a transaction containing writes
 must look at the batch, not at a snapshot which does not exist

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..4e02b8c 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -905,7 +905,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   FieldLocator locator(KeyType::kSet, key, element);
 
   std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.get(locator.toView(), tmp);
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From f69732ff10b4640d1d02319c9fedba76c70c569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 02/63] fix: SMOVE with equal source and destination increased
 the set size without adding an element

---
 src/StateMachine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 4e02b8c..08a5e44 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -925,6 +925,13 @@ rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view s
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
+  if(source == destination) {
+    // Nothing moves, only report if element exists
+    outcome = operation1.fieldExists(element);
+    operation1.cancel();
+    return rocksdb::Status::OK();
+  }
+
   WriteOperation operation2(stagingArea, destination, KeyType::kSet);
   if(!operation2.valid()) {
     operation1.finalize(operation1.keySize());
-- 
2.43.0


From 308a420cfd60761d0f599c4f2ecbd42cb29663aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 03/63] fix: VHDEL removing nothing must not create the key,
 publish a revision, or swallow the version bump of its batch

---
 src/StateMachine.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 08a5e44..cadc68d 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1411,11 +1411,11 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
-
   for(ReqIterator it = start; it != end; it++) {
-    removed += operation.deleteField(*it);
-    revision.addUpdate(*it, "");
+    if(operation.deleteField(*it)) {
+      removed++;
+      stagingArea.getRevisionTracker().forKey(key).addUpdate(*it, "");
+    }
   }
 
   // Have we modified this key in the same write batch already?
@@ -1427,12 +1427,18 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   KeyDescriptor &descriptor = operation.descriptor();
   version = descriptor.getStartIndex();
 
-  if(removed != 0 && !operation.descriptorModifiedAlreadyInWriteBatch()) {
+  if(removed == 0) {
+    // Nothing changed: Neither create the key, nor touch its version.
+    operation.cancel();
+    return rocksdb::Status::OK();
+  }
+
+  if(!operation.descriptorModifiedAlreadyInWriteBatch()) {
     version++;
     descriptor.setStartIndex(version);
   }
 
-  revision.setRevisionNumber(version);
+  stagingArea.getRevisionTracker().forKey(key).setRevisionNumber(version);
 
   int64_t newsize = operation.keySize() - removed;
   return operation.finalize(newsize, true);
-- 
2.43.0


From 8b7b41db6c5ccab87fe75b2f95da914f8b6f208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 04/63] fix: versioned hash revisions must own their contents,
 as they are published after the request is gone

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..e035a7f 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> views(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, views).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..0af8680 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -53,7 +53,7 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 38cacf7b2159fae5b49ffbdf08be044ee12d18c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:22 +0000
Subject: [PATCH 05/63] fix: deleting a versioned hash and writing to it again
 within one batch stopped every node applying it

---
 src/StateMachine.cc                         |  2 ++
 src/storage/VersionedHashRevisionTracker.cc | 11 +++++++++++
 src/storage/VersionedHashRevisionTracker.hh |  7 +++++++
 3 files changed, 20 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index cadc68d..9f7a184 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1795,6 +1795,7 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
 
     removed++;
     stagingArea.del(dlocator.toView());
+    stagingArea.getRevisionTracker().erase(*it);
   }
 
   return rocksdb::Status::OK();
@@ -1887,6 +1888,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
   mExpirationCache.clear();
+  stagingArea.getRevisionTracker().clear();
   return rocksdb::Status::OK();
 }
 
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index e035a7f..f7cef62 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -62,6 +62,17 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// Forget pending revision for given key, or all keys
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::erase(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 0af8680..22213bf 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -67,6 +67,13 @@ public:
   //----------------------------------------------------------------------------
   VersionedHashRevision& forKey(std::string_view key);
 
+  //----------------------------------------------------------------------------
+  // Forget pending revision for given key, or all keys: Needed when the hash
+  // itself is deleted, as its version starts again from scratch.
+  //----------------------------------------------------------------------------
+  void erase(std::string_view key);
+  void clear();
+
   //----------------------------------------------------------------------------
   // Is it empty?
   //----------------------------------------------------------------------------
-- 
2.43.0


From fd8d514d6ad0c73c5ebbc590f3b54761ac5ceecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 06/63] fix: LHSCAN with MATCHLOC missed elements when
 continuing from a cursor, and patterns containing '#'

---
 src/StateMachine.cc | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 9f7a184..0a741a8 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -722,6 +722,17 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    // Only hints starting with this (escaped) prefix can match.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+
+    if(patternPrefix.size() != matchloc.size()) {
+      requiredPrefix.resize(requiredPrefix.size() - 2);
+    }
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
@@ -736,23 +747,9 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
 
     // We start from the given hint + field.
     locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
-    }
-
     locator.resetField(cursorField);
     scanStart = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
-
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
-  }
 
   newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
-- 
2.43.0


From 0b4f7fc4cd101149b7613224afbaaa2d23248c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 07/63] fix: LHSET_AND_DEL_FALLBACK must not delete the
 fallback field if the write failed

---
 src/Dispatcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..a6fb400 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -342,9 +342,11 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
-      RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
+      bool fieldcreated;
+      rocksdb::Status st = store.lhset(stagingArea, request[1], request[2], request[3], request[4], fieldcreated);
+      if(!st.ok()) return Formatter::fromStatus(st);
       dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
-      return resp;
+      return Formatter::integer(fieldcreated);
     }
     case RedisCommand::LHDEL_WITH_FALLBACK: {
       if(request.size() != 4) return errArgs(request);
-- 
2.43.0


From 3a542b4bc270f4ec13db0f319f385f9b989a7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 08/63] fix: LHGET_WITH_FALLBACK with a wrong number of
 arguments got no answer at all

---
 src/Dispatcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a6fb400..a524a21 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -704,6 +704,8 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       return Formatter::scan(newcursor, vec);
     }
     case RedisCommand::LHGET_WITH_FALLBACK: {
+      if(request.size() != 4 && request.size() != 5) return errArgs(request);
+
       // First, try LHGET...
       RedisEncodedResponse resp;
       if(request.size() == 4) {
-- 
2.43.0


From bdd218ca19696f3b5b948df0dd57522b3be50ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 09/63] fix: after a power loss, a node whose commit index went
 back behind its state machine never ran for leader again

---
 src/raft/RaftDirector.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft/RaftDirector.cc b/src/raft/RaftDirector.cc
index edaca02..d85d7b8 100644
--- a/src/raft/RaftDirector.cc
+++ b/src/raft/RaftDirector.cc
@@ -33,6 +33,15 @@ namespace quarkdb {
 
 RaftDirector::RaftDirector(RaftJournal &jour, StateMachine &sm, RaftState &st, RaftLease &ls, RaftCommitTracker &ct, RaftHeartbeatTracker &rht, RaftWriteTracker &wt, ShardDirectory &sharddir, RaftConfig &conf, RaftReplicator &rep, const RaftContactDetails &cd, Publisher &pub)
 : journal(jour), stateMachine(sm), state(st), heartbeatTracker(rht), lease(ls), commitTracker(ct), writeTracker(wt), shardDirectory(sharddir), config(conf), replicator(rep), contactDetails(cd), publisher(pub) {
+
+  // Only committed entries are ever applied. The commit index is not flushed
+  // together with the state machine though, and could be the one to go back
+  // after a power loss - catch up, or we'd refuse to ever run for leader.
+  LogIndex lastApplied = stateMachine.getLastApplied();
+  if(journal.getCommitIndex() < lastApplied && lastApplied < journal.getLogSize()) {
+    journal.setCommitIndex(lastApplied);
+  }
+
   mainThread = std::thread(&RaftDirector::main, this);
 }
 
-- 
2.43.0


From 7975d9731aed8d3c1a894d2634ed6de14c944d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 10/63] fix: do not crash the leader on membership commands
 naming a server without a replica tracker

---
 src/raft/RaftDispatcher.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..9b29d7a 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -83,7 +83,14 @@ bool RaftDispatcher::checkIfNodeRemovalAcceptable(const RaftServer &srv) {
   // look like after the node removal
 
   ReplicationStatus replicationStatus = replicator.getStatus();
-  replicationStatus.removeReplicas(journal.getMembership().observers);
+
+  for(const RaftServer &observer : journal.getMembership().observers) {
+    // The replicator might not be tracking all members yet, if we just
+    // became leader.
+    if(replicationStatus.contains(observer)) {
+      replicationStatus.removeReplica(observer);
+    }
+  }
 
   ReplicaStatus leaderStatus = { state.getMyself(), true, journal.getLogSize() };
   replicationStatus.addReplica(leaderStatus);
@@ -287,7 +294,7 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
-        if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
+        if(!replicationStatus.contains(srv) || !replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
 
-- 
2.43.0


From 60de370e699cdd46a7615bf23b687c6a3f9b8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 11/63] fix: refuse a resilvering snapshot which is older than
 the current term of the node

---
 src/ShardDirectory.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 1016959..7e20e5d 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -327,6 +327,21 @@ bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string
     return false;
   }
 
+  // A new term might have started since the snapshot was taken. Installing it
+  // would make us forget our vote in that term, and any entries we have
+  // accepted since.
+  std::string incomingJournal = pathJoin(resilveringArena, "raft-journal");
+  if(hasRaftJournal(err) && directoryExists(incomingJournal, err)) {
+    RaftTerm currentTerm = getRaftJournal()->getCurrentTerm();
+    RaftTerm incomingTerm = RaftJournal(incomingJournal).getCurrentTerm();
+
+    if(incomingTerm < currentTerm) {
+      err = SSTR("resilvering '" << id << "' is stale, contains term " << incomingTerm << ", while current term is " << currentTerm);
+      qdb_warn(err);
+      return false;
+    }
+  }
+
   detach();
 
   qdb_event("Finalizing resilvering, id '" << id << "'.");
-- 
2.43.0


From 02cd941482ce8245333c07876f4d8398d33a2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 12/63] fix: catch up with newer terms seen during a failed
 pre-vote round

---
 src/raft/RaftUtils.cc        | 10 +++++++++-
 src/raft/RaftVoteRegistry.cc | 13 +++++++++++++
 src/raft/RaftVoteRegistry.hh |  5 +++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..d3da84f 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -64,8 +64,16 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
     registry.registerVote(it->first, it->second, deadline);
   }
 
+  ElectionOutcome outcome = registry.determineOutcome();
   qdb_info(registry.describeOutcome());
-  return registry.determineOutcome();
+
+  if(outcome != ElectionOutcome::kElected) {
+    // We might have lost because we are behind in terms. If we never catch up,
+    // no later pre-vote round of ours could succeed, either.
+    registry.observeTerms(state);
+  }
+
+  return outcome;
 }
 
 ElectionOutcome RaftElection::perform(RaftVoteRequest votereq, RaftState &state, RaftLease &lease, const RaftContactDetails &contactDetails) {
diff --git a/src/raft/RaftVoteRegistry.cc b/src/raft/RaftVoteRegistry.cc
index 5ff6af6..d0fb158 100644
--- a/src/raft/RaftVoteRegistry.cc
+++ b/src/raft/RaftVoteRegistry.cc
@@ -228,6 +228,19 @@ std::string RaftVoteRegistry::describeOutcome() const {
   return ss.str();
 }
 
+//------------------------------------------------------------------------------
+// Observe terms
+//------------------------------------------------------------------------------
+void RaftVoteRegistry::observeTerms(RaftState &state) {
+  for(auto it = mContents.begin(); it != mContents.end(); it++) {
+    const SingleVote& sv = it->second;
+
+    if(!sv.netError && !sv.parseError) {
+      state.observed(sv.resp.term, {});
+    }
+  }
+}
+
 //------------------------------------------------------------------------------
 // Observe terms and leases
 //------------------------------------------------------------------------------
diff --git a/src/raft/RaftVoteRegistry.hh b/src/raft/RaftVoteRegistry.hh
index 38a8abe..59f5a9c 100644
--- a/src/raft/RaftVoteRegistry.hh
+++ b/src/raft/RaftVoteRegistry.hh
@@ -97,6 +97,11 @@ public:
   //----------------------------------------------------------------------------
   std::string describeOutcome() const;
 
+  //----------------------------------------------------------------------------
+  // Observe terms
+  //----------------------------------------------------------------------------
+  void observeTerms(RaftState &state);
+
   //----------------------------------------------------------------------------
   // Observe terms and leases
   //----------------------------------------------------------------------------
-- 
2.43.0


From 43053befb82339b3c925b31b7bc19191e661ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 13/63] fix: do not reconfigure a replicator which is not
 active

---
 src/raft/RaftReplicator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..5ee4892 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -666,7 +666,15 @@ static std::vector<RaftServer> all_servers_except_myself(const std::vector<RaftS
 }
 
 void RaftReplicator::reconfigure() {
+  std::scoped_lock lock(mtx);
   RaftMembership membership = journal.getMembership();
+
+  if(!snapshot || !state.isSnapshotCurrent(snapshot.get())) {
+    // Either not activated yet, in which case activate() will pick up the
+    // current membership, or not leader anymore.
+    return;
+  }
+
   qdb_info("Reconfiguring replicator for membership epoch " << membership.epoch);
 
   // Build list of targets
-- 
2.43.0


From f4272adfe0ce202395999e997f68985de9e93f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 14/63] fix: do not log from within a log statement after an
 election with both a quorum and vetoes

---
 src/raft/RaftUtils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index d3da84f..2e8eb5c 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -65,7 +65,9 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
   }
 
   ElectionOutcome outcome = registry.determineOutcome();
-  qdb_info(registry.describeOutcome());
+  // describeOutcome might write to the log, too: don't call it with the log locked
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
 
   if(outcome != ElectionOutcome::kElected) {
     // We might have lost because we are behind in terms. If we never catch up,
@@ -126,7 +128,9 @@ ElectionOutcome RaftElection::perform(RaftVoteRequest votereq, RaftState &state,
   registry.observeTermsAndLeases(state, lease, broadcastTimepoint);
 
   ElectionOutcome outcome = registry.determineOutcome();
-  qdb_info(registry.describeOutcome());
+  // describeOutcome might write to the log, too: don't call it with the log locked
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
 
   if(outcome == ElectionOutcome::kElected) {
     if(state.ascend(votereq.term)) {
-- 
2.43.0


From 8520e357be687909b5aa1a80d835d0d3c2593573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:16 +0000
Subject: [PATCH 15/63] fix: resilver only from snapshots taken while leader

---
 src/ShardDirectory.cc      | 12 ++++++++++--
 src/raft/RaftReplicator.cc |  3 ++-
 src/raft/RaftResilverer.cc | 10 ++++++++--
 src/raft/RaftResilverer.hh |  7 ++++++-
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 7e20e5d..f3c58db 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -333,9 +333,17 @@ bool ShardDirectory::resilveringFinish(const ResilveringEventID &id, std::string
   std::string incomingJournal = pathJoin(resilveringArena, "raft-journal");
   if(hasRaftJournal(err) && directoryExists(incomingJournal, err)) {
     RaftTerm currentTerm = getRaftJournal()->getCurrentTerm();
-    RaftTerm incomingTerm = RaftJournal(incomingJournal).getCurrentTerm();
+    RaftServer currentVote = getRaftJournal()->getVotedFor();
 
-    if(incomingTerm < currentTerm) {
+    RaftJournal incoming(incomingJournal);
+    RaftTerm incomingTerm = incoming.getCurrentTerm();
+
+    // A leader has voted for itself: A snapshot without vote for the current
+    // term was taken by someone who's not the leader anymore.
+    bool stale = incomingTerm < currentTerm ||
+      (incomingTerm == currentTerm && !currentVote.empty() && incoming.getVotedFor().empty());
+
+    if(stale) {
       err = SSTR("resilvering '" << id << "' is stale, contains term " << incomingTerm << ", while current term is " << currentTerm);
       qdb_warn(err);
       return false;
diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 5ee4892..e15ca04 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -187,7 +187,8 @@ void RaftReplicaTracker::triggerResilvering() {
   }
 
   // Start the resilverer
-  resilverer.reset(new RaftResilverer(shardDirectory, target, contactDetails, trimmer));
+  resilverer.reset(new RaftResilverer(shardDirectory, target, contactDetails, trimmer,
+    [this]() { return state.isSnapshotCurrent(snapshot.get()); }));
 }
 
 class ConditionVariableNotifier {
diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 321a277..1d8dc39 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -73,8 +73,9 @@ private:
   std::string error;
 };
 
-RaftResilverer::RaftResilverer(ShardDirectory &dir, const RaftServer &trg, const RaftContactDetails &contactDetails, RaftTrimmer &trimmer)
-: shardDirectory(dir), target(trg),
+RaftResilverer::RaftResilverer(ShardDirectory &dir, const RaftServer &trg, const RaftContactDetails &contactDetails, RaftTrimmer &trimmer,
+  std::function<bool()> still)
+: shardDirectory(dir), target(trg), stillLeader(still),
   trimmingBlock(new RaftTrimmingBlock(trimmer, 0)),
   talker(target, contactDetails, "internal-resilverer") {
 
@@ -182,6 +183,11 @@ void RaftResilverer::main(ThreadAssistant &assistant) {
     return;
   }
 
+  if(stillLeader && !stillLeader()) {
+    setStatus(ResilveringState::FAILED, "I am no longer the leader");
+    return;
+  }
+
   size_t totalFiles = 0;
   if(!countFilesInDirectoryRecursively(shardSnapshot->getPath(), err, totalFiles)) {
     setStatus(ResilveringState::FAILED, err);
diff --git a/src/raft/RaftResilverer.hh b/src/raft/RaftResilverer.hh
index aa0b259..2f7f734 100644
--- a/src/raft/RaftResilverer.hh
+++ b/src/raft/RaftResilverer.hh
@@ -24,6 +24,7 @@
 #ifndef __QUARKDB_RAFT_RESILVERER_H__
 #define __QUARKDB_RAFT_RESILVERER_H__
 
+#include <functional>
 #include <qclient/QClient.hh>
 #include "utils/AssistedThread.hh"
 #include "Common.hh"
@@ -51,7 +52,10 @@ class RaftTrimmingBlock; class RaftContactDetails;
 
 class RaftResilverer {
 public:
-  RaftResilverer(ShardDirectory &directory, const RaftServer &target, const RaftContactDetails &cd, RaftTrimmer &trimmer);
+  // If provided, "stillLeader" is consulted to determine if our snapshot is
+  // really a leader's snapshot, and safe to install on the target.
+  RaftResilverer(ShardDirectory &directory, const RaftServer &target, const RaftContactDetails &cd, RaftTrimmer &trimmer,
+    std::function<bool()> stillLeader = {});
   ~RaftResilverer();
 
   ResilveringStatus getStatus();
@@ -70,6 +74,7 @@ private:
 
   ShardDirectory &shardDirectory;
   RaftServer target;
+  std::function<bool()> stillLeader;
   std::unique_ptr<RaftTrimmingBlock> trimmingBlock;
 
   RaftTalker talker;
-- 
2.43.0


From e3ab7e44e48a56b3bbe2739cf4de1f10ba93f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:33 +0000
Subject: [PATCH 16/63] fix: do not deadlock when retrying a write after losing
 and regaining leadership

---
 src/raft/RaftDispatcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 9b29d7a..8f7717d 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -443,7 +443,7 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   LeaseFilter::transform(tx, txTimestamp);
 
   // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  std::unique_lock<std::mutex> lock(raftCommand);
 
   LogIndex index = journal.getLogSize();
 
@@ -452,7 +452,9 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
     // - We retrieved the state snapshot.
     // - The raft term was changed in the meantime, we lost leadership.
     // - The journal rejected the entry due to term mismatch.
-    // Let's simply retry.
+    // Let's simply retry - without the lock, we'll have to take it again if
+    // we've become leader for a newer term.
+    lock.unlock();
     return this->service(conn, tx);
   }
 
-- 
2.43.0


From a2a7849f62e6382bddc32cae67fa2b04f10571b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 17/63] fix: acknowledge entries of the current term which a
 target obtained through resilvering

---
 src/raft/RaftReplicator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index e15ca04..65f24eb 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -331,6 +331,13 @@ bool RaftReplicaTracker::sendPayload(RaftTalker &talker, LogIndex nextIndex, int
 
   payloadSize = entries.size();
 
+  if(payloadSize == 0) {
+    // Nothing to send: The last entry we're asking the target to acknowledge
+    // is the previous one. Necessary if the target has obtained the latest
+    // entries in some other way, such as through resilvering.
+    lastEntryTerm = prevTerm;
+  }
+
   contact = std::chrono::steady_clock::now();
   reply = talker.appendEntries(
     snapshot->term,
-- 
2.43.0


From 7449d4db6f3392833c379abe445aa9361257f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:29 +0000
Subject: [PATCH 18/63] fix: only consider oneself in contact with a leader who
 has been heard from recently

---
 src/raft/RaftDispatcher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 8f7717d..a94bf90 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -619,7 +619,13 @@ RaftVoteResponse RaftDispatcher::requestVote(const RaftVoteRequest &req, bool pr
 
   if(!contains(state.getNodes(), req.candidate)) {
     RaftStateSnapshotPtr snapshot = state.getSnapshot();
-    if(!snapshot->leader.empty()) {
+
+    // A leader we have not heard from for too long doesn't count: It might be
+    // gone, and the candidate may well be a member we don't know about yet.
+    bool inContact = snapshot->leader == state.getMyself() ||
+      std::chrono::steady_clock::now() - heartbeatTracker.getLastHeartbeat() <= heartbeatTracker.getTimeouts().getHigh();
+
+    if(!snapshot->leader.empty() && inContact) {
       qdb_misconfig("Non-voting " << req.candidate.toString() << " attempted to disrupt the cluster by starting an election for term " << req.term << ". Ignoring its request - shut down that node!");
       return {snapshot->term, RaftVote::VETO};
     }
-- 
2.43.0


From 991a80adcb13a96e45d85eb8fe03d583138cfffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 19/63] fix: resilver a target which disagrees with the leader
 on the first entry of its trimmed journal

Such a target could never be brought up to date: stepping back further is not
possible, and its journal is long enough not to appear as lagging behind.
---
 src/raft/RaftReplicator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 65f24eb..3cb14d3 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -523,6 +523,8 @@ void RaftReplicaTracker::main() {
     }
 
     RaftAppendEntriesResponse resp;
+    bool divergesBeforeJournal = false;
+
     // Check: Is the target even online?
     if(retrieve_response(fut, resp, std::chrono::milliseconds(500)) != AppendEntriesReception::kOk) {
       if(onlineTracker.isOnline()) {
@@ -544,12 +546,17 @@ void RaftReplicaTracker::main() {
     if(snapshot->term < resp.term) continue;
     lastContact.heartbeat(contact);
 
+    // Check: Does the target disagree with me on the very first entry of my
+    // journal? If so, I have no earlier entries to step back to.
+    divergesBeforeJournal = !resp.outcome && journal.getLogStart() > 0
+      && nextIndex <= resp.logSize && nextIndex-1 <= journal.getLogStart();
+
     // Check: Does the target need resilvering?
-    if(resp.logSize <= journal.getLogStart()) {
-      nextIndex = journal.getLogSize();
+    if(resp.logSize <= journal.getLogStart() || divergesBeforeJournal) {
+      if(!divergesBeforeJournal) nextIndex = journal.getLogSize();
 
       if(!needResilvering) {
-        qdb_event("Unable to perform replication on " << target.toString() << ", it's too far behind (its logsize: " << resp.logSize << ") and my journal starts at " << journal.getLogStart() << ".");
+        qdb_event("Unable to perform replication on " << target.toString() << ", it's too far behind, or has diverged (its logsize: " << resp.logSize << ") and my journal starts at " << journal.getLogStart() << ".");
         needResilvering = true;
         payloadLimit = 1;
       }
-- 
2.43.0


From d2065bdd4e4d758ceb1db68a5c1081a8e622ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:11 +0000
Subject: [PATCH 20/63] fix: an old leader must not remove the leadership
 marker of the node which has just superseded it

appendEntries compares and removes journal entries while the director of the
same node may win an election for a newer term and append its marker.
---
 src/raft/RaftDispatcher.cc | 5 ++++-
 src/raft/RaftJournal.cc    | 7 ++++++-
 src/raft/RaftJournal.hh    | 4 +++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index a94bf90..76b8561 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -564,7 +564,10 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
       qdb_throw("raft invariant violation: Attempted to remove already applied entries as inconsistent. (first inconsistency: " << firstInconsistency << ", last applied: " << stateMachine.getLastApplied());
     }
 
-    journal.removeEntries(firstInconsistency);
+    // The term may progress at any point, and this node could even ascend as
+    // leader: Its leadership marker must not be removed on behalf of the leader
+    // of an older term. If that happens, appending below fails.
+    journal.removeEntries(firstInconsistency, snapshot->term);
 
     for(size_t i = appendFrom; i < req.entries.size(); i++) {
       if(!journal.append(req.prevIndex+1+i, req.entries[i], false)) {
diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..d087aa1 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -476,10 +476,15 @@ void RaftJournal::waitForUpdates(LogIndex currentSize, const std::chrono::millis
   logUpdated.wait_for(lock, timeout);
 }
 
-bool RaftJournal::removeEntries(LogIndex from) {
+bool RaftJournal::removeEntries(LogIndex from, RaftTerm expectedTerm) {
   std::unique_lock<std::mutex> lock(contentMutex);
   if(logSize <= from) return false;
 
+  if(expectedTerm != -1 && currentTerm != expectedTerm) {
+    qdb_warn("refusing to remove journal entries on behalf of term " << expectedTerm << ", as the current one is " << currentTerm);
+    return false;
+  }
+
   if(from <= commitIndex) qdb_throw("attempted to remove committed entries. commitIndex: " << commitIndex << ", from: " << from);
   qdb_warn("Removing inconsistent log entries: [" << from << "," << logSize-1 << "]");
 
diff --git a/src/raft/RaftJournal.hh b/src/raft/RaftJournal.hh
index 430ab3a..b8d8b02 100644
--- a/src/raft/RaftJournal.hh
+++ b/src/raft/RaftJournal.hh
@@ -77,7 +77,9 @@ public:
   void fetch_or_die(LogIndex index, RaftTerm &term);
 
   bool matchEntries(LogIndex index, RaftTerm term);
-  bool removeEntries(LogIndex start);
+  // If expectedTerm is given, entries are only removed if the current term is
+  // still equal to it.
+  bool removeEntries(LogIndex start, RaftTerm expectedTerm = -1);
   LogIndex compareEntries(LogIndex start, const std::vector<RaftEntry> entries);
 
   void waitForUpdates(LogIndex currentSize, const std::chrono::milliseconds &timeout);
-- 
2.43.0


From 8794645500153911059150ecfeadafa14877988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 21/63] fix: a cpu number equal to the number of cpus is beyond
 the per-core array

---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 3754833c02555ea840e66799904cd639325636bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 22/63] fix: reject negative, zero and oversized protocol sizes
 instead of crashing, and do not preallocate what a client promises

---
 src/RedisParser.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..91f0766 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -62,10 +62,12 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
       return -2;
     }
 
-    req.resize(request_size);
   }
 
   for( ; current_element < request_size; current_element++) {
+    // Do not allocate all the elements the client has promised beforehand
+    if((int) req.size() <= current_element) req.resize(current_element + 1);
+
     int rc = readElement(req.getPinnedBuffer(current_element), authenticated);
     if(rc <= 0) return rc;
     element_size = -1;
@@ -90,6 +92,11 @@ int RedisParser::readInteger(char prefix, int &retval) {
     if(rlen <= 0) return rlen;
 
     current_integer.append(prev);
+
+    if(current_integer.size() > 64) {
+      qdb_warn("Redis protocol error, received an integer which is too long");
+      return -1;
+    }
   }
 
   if(current_integer[0] != prefix) {
@@ -106,7 +113,7 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   char *endptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  if(*endptr != '\0' || num < (prefix == '*' ? 1 : 0) || num > INT_MAX - 2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From dd370b503f731b8e3ba0654b352160a50eacb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 23/63] fix: unpack and verify packed transactions sent by
 clients, instead of crashing on malformed or internal contents

---
 src/Connection.cc           | 16 ++++++++++--
 src/redis/InternalFilter.cc | 20 ++++++++++++++
 src/redis/InternalFilter.hh |  7 ++++-
 src/redis/Transaction.cc    | 52 +++++++++++++++++++++++--------------
 src/redis/Transaction.hh    |  1 +
 5 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..67c912e 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -309,9 +309,21 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    // Transaction packed in a single request: unpack it here, the contents are
+    // not to be trusted.
+    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      Transaction transaction;
+      if(multiHandler.active()) {
+        this->err("transactions can not be nested");
+      }
+      else if(!transaction.deserialize(currentRequest) || !InternalFilter::isAllowed(transaction)) {
+        this->err("malformed transaction");
+      }
+      else {
+        dispatcher->dispatch(this, transaction);
+      }
       continue;
     }
 
diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 4465025..152ff84 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -23,6 +23,7 @@
 
 #include "redis/InternalFilter.hh"
 #include "RedisRequest.hh"
+#include "redis/Transaction.hh"
 using namespace quarkdb;
 
 void InternalFilter::process(RedisRequest &req) {
@@ -39,3 +40,22 @@ void InternalFilter::process(RedisRequest &req) {
     }
   }
 }
+
+bool InternalFilter::isAllowed(const Transaction &tx) {
+  for(size_t i = 0; i < tx.size(); i++) {
+    switch(tx[i].getCommand()) {
+      case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
+      case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
+      case RedisCommand::TIMESTAMPED_LEASE_GET:
+      case RedisCommand::TX_READONLY:
+      case RedisCommand::TX_READWRITE: {
+        return false;
+      }
+      default: {
+        break;
+      }
+    }
+  }
+
+  return true;
+}
diff --git a/src/redis/InternalFilter.hh b/src/redis/InternalFilter.hh
index d3cb16b..c469566 100644
--- a/src/redis/InternalFilter.hh
+++ b/src/redis/InternalFilter.hh
@@ -26,7 +26,7 @@
 
 namespace quarkdb {
 
-class RedisRequest;
+class RedisRequest; class Transaction;
 
 class InternalFilter {
 public:
@@ -37,6 +37,11 @@ public:
   // generated internally.
   //----------------------------------------------------------------------------
   static void process(RedisRequest &req);
+
+  //----------------------------------------------------------------------------
+  // Is an end-user allowed to emit each command contained in this transaction?
+  //----------------------------------------------------------------------------
+  static bool isAllowed(const Transaction &tx);
 };
 
 }
diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..33a105e 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,42 +92,54 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  if(this->containsWrites() != (req.getCommand() == RedisCommand::TX_READWRITE)) {
+    this->clear();
+    return false;
   }
 
   this->setPhantom(phantom);
   return true;
 }
 
+static bool extractInteger(const PinnedBuffer &src, size_t &pos, int64_t &val) {
+  if(src.size() - pos < sizeof(int64_t)) return false;
+  val = binaryStringToInt(src.data() + pos);
+  pos += sizeof(int64_t);
+  return true;
+}
+
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
-  if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
+  if(!deserializeRequests(src)) {
+    this->clear();
+    return false;
+  }
 
-  requests.resize(totalRequests);
+  return true;
+}
+
+bool Transaction::deserializeRequests(const PinnedBuffer &src) {
+  size_t pos = 0;
+  int64_t totalRequests;
+  if(!extractInteger(src, pos, totalRequests) || totalRequests <= 0) return false;
 
   for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
+    int64_t totalParts;
+    if(!extractInteger(src, pos, totalParts)) return false;
+    requests.emplace_back();
 
     for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
+      int64_t length;
+      if(!extractInteger(src, pos, length)) return false;
+      if(length < 0 || (size_t) length > src.size() - pos) return false;
 
-      requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+      requests[i].push_back(src.substr(pos, length));
+      pos += length;
     }
+
+    CommandType type = requests[i].getCommandType();
+    if(type != CommandType::READ && type != CommandType::WRITE) return false;
     checkNthCommandForWrites(i);
   }
 
diff --git a/src/redis/Transaction.hh b/src/redis/Transaction.hh
index 59b199a..8394cc0 100644
--- a/src/redis/Transaction.hh
+++ b/src/redis/Transaction.hh
@@ -103,6 +103,7 @@ public:
 
 private:
   void checkNthCommandForWrites(int n = -1);
+  bool deserializeRequests(const PinnedBuffer &src);
 
   bool hasWrites = false;
   bool phantom = false;
-- 
2.43.0


From 8c18c392e9ff7b41611e79d349208772b6f9ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 24/63] fix: EXEC without MULTI pipelined after writes reached
 the raft dispatcher and stopped the node

---
 src/Connection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 67c912e..6d2c455 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -304,7 +304,8 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     }
 
     // EXEC without MULTI?
-    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.active()) {
+    if(currentRequest.getCommand() == RedisCommand::EXEC && (!multiHandler.active() || multiHandler.isPhantom())) {
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
       this->err("EXEC without MULTI");
       continue;
     }
-- 
2.43.0


From 9bced9ac44daff3a4f39f5719c94e12a55046e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 25/63] fix: answer each write pipelined by an unauthenticated
 client

---
 src/QuarkDBNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..7b01f7f 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
-- 
2.43.0


From 0429a8a5324a98fa701dc898f7583cbb61eba6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 26/63] fix: CLIENT without arguments read beyond the end of
 the request

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 7b01f7f..e593200 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From a0c6236e957bb076e0e2c1ff41ec885c0bca23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 27/63] fix: writes sent to a server in recovery mode must be
 refused, not stop it

---
 src/recovery/RecoveryDispatcher.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 8f4012b..3eda43c 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -27,6 +27,7 @@
 #include "utils/IntToBinaryString.hh"
 #include "storage/KeyConstants.hh"
 #include "raft/RaftMembers.hh"
+#include "redis/Transaction.hh"
 #include "utils/CommandParsing.hh"
 using namespace quarkdb;
 
@@ -34,7 +35,9 @@ RecoveryDispatcher::RecoveryDispatcher(RecoveryEditor &ed) : editor(ed) {
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, Transaction &tx) {
-  qdb_throw("Transactions not supported in RecoveryDispatcher");
+  std::string msg = "unable to dispatch transaction - remember we're running in recovery mode, not all operations are available";
+  qdb_warn(msg);
+  return conn->raw(Formatter::multiply(Formatter::err(msg), tx.expectedResponses()));
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, RedisRequest &req) {
-- 
2.43.0


From 45a5eec3afd52cc460ee5972764da7a7b178ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 28/63] fix: a reply which did not fit in the socket's send
 buffer left the connection hanging forever

---
 src/Link.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Link.cc b/src/Link.cc
index 2503104..bba74f3 100644
--- a/src/Link.cc
+++ b/src/Link.cc
@@ -23,6 +23,7 @@
 
 #include <iostream>
 #include <limits>
+#include <poll.h>
 
 #include "Link.hh"
 #include "Common.hh"
@@ -168,13 +169,32 @@ LinkStatus Link::asioRecv(char *buff, int blen, int timeout) {
 }
 
 LinkStatus Link::asioSend(const char *buff, int blen) {
-  asio::error_code ec;
-  int bytesWritten = asio::write(*asioSocket, asio::buffer(buff, blen), ec);
-  if(ec.value() != 0) {
+  // The socket is in non-blocking mode: If its send buffer fills up, give our
+  // peer a chance to drain it before giving up.
+  constexpr int kTimeoutMs = 5000;
+  int bytesWritten = 0;
+
+  while(true) {
+    asio::error_code ec;
+    bytesWritten += asio::write(*asioSocket, asio::buffer(buff + bytesWritten, blen - bytesWritten), ec);
+    if(ec.value() == 0) {
+      return bytesWritten;
+    }
+
+    if(ec.value() == EAGAIN || ec.value() == EWOULDBLOCK) {
+      struct pollfd polls[1];
+      polls[0].fd = asioSocket->native_handle();
+      polls[0].events = POLLOUT;
+      polls[0].revents = 0;
+
+      if(poll(polls, 1, kTimeoutMs) > 0) continue;
+    }
+
+    // Nothing can be sent on this link after a partial write, don't leave the
+    // other side hanging.
+    asioClose(0);
     return -1;
   }
-
-  return bytesWritten;
 }
 
 LinkStatus Link::asioClose(int defer) {
-- 
2.43.0


From b5ad6c4f43ffda2998bb28729cc681bcabe79383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:06 +0000
Subject: [PATCH 29/63] fix: nodes without a password closed connections whose
 first request had five or more elements

---
 src/Connection.cc  | 2 +-
 src/Dispatcher.hh  | 3 +++
 src/QuarkDBNode.hh | 3 +--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 6d2c455..fb4c528 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -283,7 +283,7 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       qdb_throw("should never reach here");
     }
 
-    LinkStatus status = parser.fetch(currentRequest, authorization);
+    LinkStatus status = parser.fetch(currentRequest, dispatcher->isAuthenticated(this));
     InternalFilter::process(currentRequest);
 
     if(status < 0) {
diff --git a/src/Dispatcher.hh b/src/Dispatcher.hh
index d6afdc2..cd2f183 100644
--- a/src/Dispatcher.hh
+++ b/src/Dispatcher.hh
@@ -39,6 +39,9 @@ public:
   virtual LinkStatus dispatch(Connection *conn, Transaction &multiOp) = 0;
   virtual void notifyDisconnect(Connection *conn) = 0;
 
+  // May the given connection issue requests, or does it need to authenticate?
+  virtual bool isAuthenticated(Connection *conn) const { return true; }
+
   RedisEncodedResponse handlePing(RedisRequest &req);
   RedisEncodedResponse handleConversion(RedisRequest &req);
   virtual ~Dispatcher() {}
diff --git a/src/QuarkDBNode.hh b/src/QuarkDBNode.hh
index b27d4af..d66e161 100644
--- a/src/QuarkDBNode.hh
+++ b/src/QuarkDBNode.hh
@@ -60,6 +60,7 @@ public:
   virtual LinkStatus dispatch(Connection *conn, RedisRequest &req) override final;
   virtual LinkStatus dispatch(Connection *conn, Transaction &transaction) override final;
   virtual void notifyDisconnect(Connection *conn) override final {}
+  virtual bool isAuthenticated(Connection *conn) const override final;
 
   const Configuration& getConfiguration() {
     return configuration;
@@ -70,8 +71,6 @@ public:
   }
 
 private:
-  bool isAuthenticated(Connection *conn) const;
-
   std::unique_ptr<ShardDirectory> shardDirectoryOwnership;
   std::unique_ptr<Shard> shard;
 
-- 
2.43.0


From b6b998ab0b9df739cb2e52f06f27b1f5b1243548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 30/63] fix: LEASE_GET on a key which is not a lease stopped
 every node applying it

---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a524a21..4c4a60a 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -422,7 +422,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From a9b555cd35633c17ba9ae5d201bd0c975b55fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 31/63] fix: LHSCAN with a cursor containing an empty locality
 hint stopped the node

---
 src/StateMachine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 0a741a8..3f9457c 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -745,6 +745,10 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     cursorHint = extractor.getOriginalPrefix();
     cursorField = extractor.getRawSuffix();
 
+    if(cursorHint.empty()) {
+      return malformed("invalid cursor");
+    }
+
     // We start from the given hint + field.
     locator.resetHint(cursorHint);
     locator.resetField(cursorField);
-- 
2.43.0


From 6d9a68edc7f5987a6884a1ac9efd658270349f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 32/63] fix: publishing never ended if a key it was iterating
 over was unsubscribed concurrently

---
 src/pubsub/ThreadSafeMultiMap.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..e422345 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -361,6 +361,9 @@ public:
           // Found valid position
           return;
         }
+
+        // All values of this key were removed in the meantime, try the next one
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From f33db2a38ccdd0d20eec05bb36ffc3415e72f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 33/63] fix: temporary snapshots of databases in paths with
 spaces or shell metacharacters removed other files

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index f3c58db..93ff27c 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -34,7 +34,7 @@ ShardSnapshot::ShardSnapshot(const std::string &path_)
 : path(path_) { }
 
 ShardSnapshot::~ShardSnapshot() {
-  system(SSTR("rm -rf " << path).c_str());
+  system(SSTR("rm -rf " << quotes(path)).c_str());
 }
 
 std::string ShardSnapshot::getPath() {
-- 
2.43.0


From 0eb77c0974671da70f6cedd0ed404e5d65d166a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:05 +0000
Subject: [PATCH 34/63] fix: an interrupted or failed write of the resilvering
 history lost it

---
 src/ShardDirectory.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 93ff27c..4c17ebf 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -57,7 +57,13 @@ void ShardDirectory::parseResilveringHistory() {
 }
 
 void ShardDirectory::storeResilveringHistory() {
-  write_file_or_die(resilveringHistoryPath(), resilveringHistory.serialize());
+  // Don't leave a truncated history behind, if interrupted
+  std::string tmpPath = SSTR(resilveringHistoryPath() << ".tmp");
+  write_file_or_die(tmpPath, resilveringHistory.serialize());
+
+  if(rename(tmpPath.c_str(), resilveringHistoryPath().c_str()) != 0) {
+    qdb_throw("Unable to rename '" << tmpPath << "': " << strerror(errno));
+  }
 }
 
 ShardDirectory::ShardDirectory(const std::string &initpath, Configuration config)
-- 
2.43.0


From 642103e41040478ff5528ebf552abb536f7d43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 35/63] fix: a node killed while replacing its contents by a
 resilvering could not start again

---
 src/ShardDirectory.cc | 28 ++++++++++++++++++++++++++++
 src/ShardDirectory.hh |  1 +
 2 files changed, 29 insertions(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 4c17ebf..9cdd839 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -22,6 +22,7 @@
  ************************************************************************/
 
 #include "ShardDirectory.hh"
+#include "utils/DirectoryIterator.hh"
 #include "utils/FileUtils.hh"
 #include "StateMachine.hh"
 #include "raft/RaftJournal.hh"
@@ -80,6 +81,33 @@ ShardDirectory::ShardDirectory(const std::string &initpath, Configuration config
   }
 
   parseResilveringHistory();
+  rollbackInterruptedResilvering();
+}
+
+//------------------------------------------------------------------------------
+// If a previous process was terminated after moving away the old contents, and
+// before having put the new ones in place, restore the old ones.
+//------------------------------------------------------------------------------
+void ShardDirectory::rollbackInterruptedResilvering() {
+  std::string err;
+  std::string supplantedPath = pathJoin(path, "supplanted");
+
+  struct stat sb;
+  if(stat(currentPath().c_str(), &sb) == 0 || errno != ENOENT || !directoryExists(supplantedPath, err)) return;
+
+  DirectoryIterator iterator(supplantedPath);
+  struct dirent *entry;
+  while( (entry = iterator.next()) ) {
+    std::string id(entry->d_name);
+    if(id == "." || id == "..") continue;
+
+    // The contents of all successful resilverings have left the arena
+    if(directoryExists(getSupplanted(id), err) && directoryExists(getResilveringArena(id), err)) {
+      qdb_critical("Resilvering with id '" << id << "' was interrupted while replacing the old contents, restoring them.");
+      rename_directory_or_die(getSupplanted(id), currentPath());
+      return;
+    }
+  }
 }
 
 ShardDirectory::~ShardDirectory() {
diff --git a/src/ShardDirectory.hh b/src/ShardDirectory.hh
index fd48a5a..3e30b80 100644
--- a/src/ShardDirectory.hh
+++ b/src/ShardDirectory.hh
@@ -99,6 +99,7 @@ public:
 private:
   void parseResilveringHistory();
   void storeResilveringHistory();
+  void rollbackInterruptedResilvering();
 
   void detach();
   std::string path;
-- 
2.43.0


From b7e2d37f8f99ea8eb63b5b881256f690a5e0d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 36/63] fix: creating a database with a starting index and no
 existing contents crashed

---
 src/ShardDirectory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 9cdd839..410b760 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -205,6 +205,7 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
     //--------------------------------------------------------------------------
     wipeoutStateMachineContents();
     getStateMachine()->forceResetLastApplied(initialLastApplied);
+    return;
   }
 
   //----------------------------------------------------------------------------
-- 
2.43.0


From e6267a62562e78daf2e9f946b07c5281beb5b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 37/63] fix: creating a database over a path which cannot be
 examined must be refused

---
 src/ShardDirectory.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 410b760..920a383 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -260,11 +260,16 @@ void ShardDirectory::obliterate(RaftClusterID clusterID, const std::vector<RaftS
 }
 
 Status ShardDirectory::initializeDirectory(const std::string &path, RaftClusterID clusterID, ShardID shardID) {
-  std::string err;
-  if(directoryExists(path, err)) {
+  struct stat sb;
+  if(stat(path.c_str(), &sb) == 0) {
     return Status(EEXIST, SSTR("Cannot initialize shard directory for '" << shardID << "', path already exists: " << path));
   }
 
+  if(errno != ENOENT) {
+    int localerrno = errno;
+    return Status(localerrno, SSTR("Cannot initialize shard directory for '" << shardID << "', unable to stat " << path << ": " << strerror(localerrno)));
+  }
+
   mkpath_or_die(path + "/", 0755);
   write_file_or_die(pathJoin(path, "SHARD-ID"), shardID);
   mkpath_or_die(pathJoin(path, "current") + "/", 0755);
-- 
2.43.0


From 978ca3c6f963b37fe534a85a424be678428b28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 38/63] fix: creating a standalone database leaked its first
 directory object

---
 src/ShardDirectory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 920a383..3a642f2 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -286,11 +286,11 @@ ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID cl
     return nullptr;
   }
 
-  ShardDirectory *shardDirectory = new ShardDirectory(path);
+  std::unique_ptr<ShardDirectory> shardDirectory(new ShardDirectory(path));
 
   // Standalone shard, we start from LogIndex 0
   shardDirectory->initializeStateMachine(std::move(sm), 0);
-  return new ShardDirectory(path);
+  return shardDirectory.release();
 }
 
 ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID clusterID, ShardID shardID, const std::vector<RaftServer> &nodes, LogIndex startIndex, FsyncPolicy fsyncPolicy, std::unique_ptr<StateMachine> sm, Status &st) {
-- 
2.43.0


From cc606d09ad2d0dfb32a545264b0ae86d549c0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 39/63] fix: a failed snapshot stayed on disk forever

---
 src/ShardDirectory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 3a642f2..91e9d4c 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -314,6 +314,9 @@ std::unique_ptr<ShardSnapshot> ShardDirectory::takeSnapshot(const SnapshotID &id
     return nullptr;
   }
 
+  // Takes care of removing the directory again, if we don't make it to the end
+  std::unique_ptr<ShardSnapshot> snapshot(new ShardSnapshot(snapshotDirectory));
+
   std::string smCheckpoint = pathJoin(snapshotDirectory, "state-machine");
   rocksdb::Status st = getStateMachine()->checkpoint(smCheckpoint);
   if(!st.ok()) {
@@ -328,7 +331,7 @@ std::unique_ptr<ShardSnapshot> ShardDirectory::takeSnapshot(const SnapshotID &id
     return nullptr;
   }
 
-  return std::unique_ptr<ShardSnapshot>(new ShardSnapshot(snapshotDirectory));
+  return snapshot;
 }
 
 bool ShardDirectory::resilveringStart(const ResilveringEventID &id, std::string &err) {
-- 
2.43.0


From caad0e047f5cc524f5d9b45c12fbe2e22466e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 40/63] fix: a new journal was not durable, and reinitializing
 one was not atomic

---
 src/raft/RaftJournal.cc | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index d087aa1..3e77097 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -113,25 +113,36 @@ void RaftJournal::ObliterateAndReinitializeJournal(const std::string &path, Raft
 }
 
 void RaftJournal::obliterate(RaftClusterID newClusterID, const std::vector<RaftServer> &newNodes, LogIndex startIndex, FsyncPolicy fsyncPolicy) {
+  // Everything in a single synced batch: A crash at any point leaves either the
+  // old journal behind, or the complete new one.
+  rocksdb::WriteBatch batch;
+
   IteratorPtr iter(db->NewIterator(rocksdb::ReadOptions()));
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
-    db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
+    THROW_ON_ERROR(batch.Delete(iter->key()));
   }
 
-  this->set_int_or_die(KeyConstants::kJournal_CurrentTerm, 0);
-  this->set_int_or_die(KeyConstants::kJournal_LogSize, startIndex+1);
-  this->set_int_or_die(KeyConstants::kJournal_LogStart, startIndex);
-  this->set_or_die(KeyConstants::kJournal_ClusterID, newClusterID);
-  this->set_or_die(KeyConstants::kJournal_VotedFor, "");
-  this->set_int_or_die(KeyConstants::kJournal_CommitIndex, startIndex);
+  THROW_ON_ERROR(iter->status());
+  iter.reset();
+
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_CurrentTerm, intToBinaryString(0)));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_LogSize, intToBinaryString(startIndex+1)));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_LogStart, intToBinaryString(startIndex)));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_ClusterID, newClusterID));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_VotedFor, ""));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_CommitIndex, intToBinaryString(startIndex)));
 
   RaftMembers newMembers(newNodes, {});
-  this->set_or_die(KeyConstants::kJournal_Members, newMembers.toString());
-  this->set_int_or_die(KeyConstants::kJournal_MembershipEpoch, startIndex);
-  this->set_or_die(KeyConstants::kJournal_FsyncPolicy, fsyncPolicyToString(fsyncPolicy) );
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_Members, newMembers.toString()));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_MembershipEpoch, intToBinaryString(startIndex)));
+  THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_FsyncPolicy, fsyncPolicyToString(fsyncPolicy)));
 
   RaftEntry entry(0, "JOURNAL_UPDATE_MEMBERS", newMembers.toString(), newClusterID);
-  this->set_or_die(encodeEntryKey(startIndex), entry.serialize());
+  THROW_ON_ERROR(batch.Put(encodeEntryKey(startIndex), entry.serialize()));
+
+  rocksdb::WriteOptions opts;
+  opts.sync = true;
+  THROW_ON_ERROR(db->Write(opts, &batch));
 
   initialize();
 }
-- 
2.43.0


From ef180b2aecd7981850e9cbbc7a1541f6228d57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 41/63] fix: write_file reported success for incomplete writes
 and failure for empty files

---
 src/utils/FileUtils.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..1b53f80 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -192,8 +192,17 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
+  retvalue = (fwrite(contents.data(), sizeof(char), contents.size(), out) == contents.size());
+
+  // Buffered data may only hit the disk now
+  if(fclose(out) != 0) {
+    retvalue = false;
+  }
+
+  if(!retvalue) {
+    err = SSTR("Unable to write to path: " << path << ", errno: " << errno);
+  }
+
   return retvalue;
 }
 
-- 
2.43.0


From 2aea1d452f6134927fa37e2d7d7e59fdac3e68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 42/63] fix: files which could not be read were sent as empty
 or truncated during resilvering

---
 src/raft/RaftResilverer.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 1d8dc39..7048538 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -30,7 +30,6 @@
 #include "utils/DirectoryIterator.hh"
 #include "utils/FileUtils.hh"
 #include <dirent.h>
-#include <fstream>
 
 using namespace quarkdb;
 
@@ -116,11 +115,13 @@ void RaftResilverer::cancel(const std::string &reason) {
 }
 
 bool RaftResilverer::copyFile(const std::string &path, const std::string &prefix, std::string &err) {
-  std::ifstream t(path);
-  std::stringstream buffer;
-  buffer << t.rdbuf();
+  std::string contents;
+  if(!readFile(path, contents)) {
+    err = SSTR("Unable to read " << path);
+    return false;
+  }
 
-  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, buffer.str()));
+  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, contents));
   if(!verifier.ok()) {
     err = SSTR("Error when coping " << path << ": " << verifier.err());
   }
@@ -191,6 +192,7 @@ void RaftResilverer::main(ThreadAssistant &assistant) {
   size_t totalFiles = 0;
   if(!countFilesInDirectoryRecursively(shardSnapshot->getPath(), err, totalFiles)) {
     setStatus(ResilveringState::FAILED, err);
+    return;
   }
 
   mFilesTotal = totalFiles;
-- 
2.43.0


From 4e3340e1be4f54e72e9adae4f10b43c27ecaddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:19 +0000
Subject: [PATCH 43/63] fix: the starting index of a new database was not
 durable

---
 src/StateMachine.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 3f9457c..bbadd18 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -2074,7 +2074,10 @@ bool StateMachine::waitUntilTargetLastApplied(LogIndex targetLastApplied, std::c
 void StateMachine::forceResetLastApplied(LogIndex newLastApplied) {
   std::scoped_lock lock(lastAppliedMtx);
   qdb_info("Resetting lastApplied for state-machine stored in '" << filename << "': " << lastApplied << " => " << newLastApplied);
-  THROW_ON_ERROR(db->Put(rocksdb::WriteOptions(), KeyConstants::kStateMachine_LastApplied, intToBinaryString(newLastApplied)));
+
+  rocksdb::WriteOptions opts;
+  opts.sync = true;
+  THROW_ON_ERROR(db->Put(opts, KeyConstants::kStateMachine_LastApplied, intToBinaryString(newLastApplied)));
   lastApplied = newLastApplied;
 }
 
-- 
2.43.0


From ca1aa43f34f54c1ec33f269b367046d57717b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:19 +0000
Subject: [PATCH 44/63] fix: a node killed or losing power while creating its
 state machine could not start again

---
 src/StateMachine.cc | 37 +++++++++++++++++++++++++++++++++----
 src/StateMachine.hh |  1 +
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index bbadd18..2d19eb1 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -24,6 +24,7 @@
 #include "StateMachine.hh"
 #include "Utils.hh"
 #include "../deps/StringMatchLen.h"
+#include "utils/DirectoryIterator.hh"
 #include "utils/ParseUtils.hh"
 #include "storage/KeyDescriptor.hh"
 #include "storage/KeyLocators.hh"
@@ -61,6 +62,22 @@ static bool directoryExists(const std::string &path) {
   return false;
 }
 
+// Was an attempt to create a DB in this directory interrupted before completing?
+static bool neverFullyCreated(const std::string &path) {
+  DirectoryIterator iterator(path);
+
+  struct dirent *entry;
+  while( (entry = iterator.next()) ) {
+    std::string name(entry->d_name);
+    if(name == "CURRENT") return false;
+
+    size_t dot = name.rfind('.');
+    if(dot != std::string::npos && (name.substr(dot) == ".sst" || name.substr(dot) == ".log")) return false;
+  }
+
+  return iterator.ok();
+}
+
 static rocksdb::Status malformed(std::string_view message) {
   return rocksdb::Status::InvalidArgument(message);
 }
@@ -120,7 +137,7 @@ StateMachine::StateMachine(std::string_view f, bool write_ahead_log, bool bulk_l
   options.compression = rocksdb::kLZ4Compression;
   options.bottommost_compression = rocksdb::kZSTD;
 
-  options.create_if_missing = !dirExists;
+  options.create_if_missing = !dirExists || neverFullyCreated(filename);
   options.table_factory.reset(rocksdb::NewBlockBasedTableFactory(table_options));
   options.row_cache = rocksdb::NewLRUCache(1024 * 1024 * 1024, 8);
 
@@ -154,9 +171,14 @@ StateMachine::StateMachine(std::string_view f, bool write_ahead_log, bool bulk_l
   if(!status.ok()) qdb_throw("Cannot open " << quotes(filename) << ":" << status.ToString());
 
   db.reset(tmpdb);
-  ensureCompatibleFormat(!dirExists);
-  ensureBulkloadSanity(!dirExists);
-  ensureClockSanity(!dirExists);
+
+  // If the directory exists but there are no contents at all, an earlier attempt
+  // to create this state machine was interrupted before completing.
+  bool justCreated = !dirExists || isEmpty();
+
+  ensureCompatibleFormat(justCreated);
+  ensureBulkloadSanity(justCreated);
+  ensureClockSanity(justCreated);
   loadExpirationCache();
   retrieveLastApplied();
 
@@ -164,6 +186,13 @@ StateMachine::StateMachine(std::string_view f, bool write_ahead_log, bool bulk_l
   consistencyScanner.reset(new ConsistencyScanner(*this));
 }
 
+bool StateMachine::isEmpty() {
+  IteratorPtr iter(db->NewIterator(rocksdb::ReadOptions()));
+  iter->SeekToFirst();
+  THROW_ON_ERROR(iter->status());
+  return !iter->Valid();
+}
+
 void StateMachine::ensureClockSanity(bool justCreated) {
   std::string value;
   rocksdb::Status st = db->Get(rocksdb::ReadOptions(), KeyConstants::kStateMachine_Clock, &value);
diff --git a/src/StateMachine.hh b/src/StateMachine.hh
index 0753e3d..18b35ff 100644
--- a/src/StateMachine.hh
+++ b/src/StateMachine.hh
@@ -362,6 +362,7 @@ private:
   KeyDescriptor lockKeyDescriptor(StagingArea &stagingArea, DescriptorLocator &dlocator);
 
   void retrieveLastApplied();
+  bool isEmpty();
   void ensureCompatibleFormat(bool justCreated);
   void ensureBulkloadSanity(bool justCreated);
   void ensureClockSanity(bool justCreated);
-- 
2.43.0


From 9b871365f2037cf84d047d0d455003fd9b9434b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 45/63] fix: a finalized bulk load did not survive a crash, and
 a read error while finalizing it lost keys

---
 src/StateMachine.cc                 | 9 ++++++++-
 src/storage/KeyDescriptorBuilder.cc | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 2d19eb1..1dc3c00 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -2050,7 +2050,14 @@ void StateMachine::finalizeBulkload() {
   THROW_ON_ERROR(manualCompaction());
   qdb_event("Manual compaction was successful. Building key descriptors...");
   KeyDescriptorBuilder builder(*this);
-  THROW_ON_ERROR(db->Put(rocksdb::WriteOptions(), KeyConstants::kStateMachine_InBulkload, boolToString(false)));
+
+  // Descriptors have bypassed the write ahead log, make them durable before
+  // declaring the contents complete.
+  THROW_ON_ERROR(db->Flush(rocksdb::FlushOptions()));
+
+  rocksdb::WriteOptions opts;
+  opts.sync = true;
+  THROW_ON_ERROR(db->Put(opts, KeyConstants::kStateMachine_InBulkload, boolToString(false)));
   qdb_event("All done, bulkload is over. Restart quarkdb in standalone mode.");
 }
 
diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 34bd94d..776427b 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -61,6 +61,10 @@ KeyDescriptorBuilder::KeyDescriptorBuilder(StateMachine &stateMachine) {
     }
 
     if(!iterator->Valid()) {
+      if(!iterator->status().ok()) {
+        qdb_throw("unable to scan database for key descriptors: " << iterator->status().ToString());
+      }
+
       appendToWriteBatch(currentPrefix, currentKey, descriptor, descriptorBatch);
       break;
     }
-- 
2.43.0


From c39ca162f26e5052fe7490ff1fea186a9d4e9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:59 +0000
Subject: [PATCH 46/63] fix: an interrupted bulk load could be taken for an
 empty database after a power loss

---
 src/StateMachine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 1dc3c00..add18e2 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -266,7 +266,11 @@ void StateMachine::ensureBulkloadSanity(bool justCreated) {
 
   if(justCreated) {
     if(!st.IsNotFound()) qdb_throw("Error when reading __in-bulkload, which should not exist: " << st.ToString());
-    THROW_ON_ERROR(db->Put(rocksdb::WriteOptions(), KeyConstants::kStateMachine_InBulkload, boolToString(bulkLoad)));
+
+    // If we're about to load in bulk, that has to be on disk before any contents
+    rocksdb::WriteOptions opts;
+    opts.sync = bulkLoad;
+    THROW_ON_ERROR(db->Put(opts, KeyConstants::kStateMachine_InBulkload, boolToString(bulkLoad)));
   }
   else {
     if(st.IsNotFound()) {
-- 
2.43.0


From c56e9831eee24af0453b3a97ec8914a3a341b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:49 +0000
Subject: [PATCH 47/63] fix: packed transactions could contain empty strings,
 which stop every node applying them

---
 src/redis/InternalFilter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 152ff84..5415ea3 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -43,6 +43,11 @@ void InternalFilter::process(RedisRequest &req) {
 
 bool InternalFilter::isAllowed(const Transaction &tx) {
   for(size_t i = 0; i < tx.size(); i++) {
+    // Just like in any other request, empty strings are not allowed
+    for(size_t j = 0; j < tx[i].size(); j++) {
+      if(tx[i][j].empty()) return false;
+    }
+
     switch(tx[i].getCommand()) {
       case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
       case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
-- 
2.43.0


From 3f3c7ee1067cfe981d770460a4b923453f1b208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 48/63] fix: redis.certificate_key overwrote redis.certificate,
 and misspelt options were taken for others

---
 src/Configuration.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..552b549 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -135,34 +135,34 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
-- 
2.43.0


From 5e420760c987461acdcb3836dfcdc0ed2897f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 49/63] fix: without redis.mode, the node started in an
 arbitrary mode

---
 src/Configuration.cc | 7 +++++++
 src/Configuration.hh | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 552b549..dc27017 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -120,6 +120,7 @@ static bool parseTraceLevel(const std::string &buffer, TraceLevel &trace) {
 }
 
 bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out) {
+  bool modeSpecified = false;
 
   while(!reader.eof()) {
     std::string current = reader.getCurrentWord();
@@ -137,6 +138,7 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
 
     if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
+      modeSpecified = true;
     }
     else if(current == "database") {
       success = fetchSingle(reader, out.database);
@@ -178,6 +180,11 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     reader.advanceLine();
   }
 
+  if(!modeSpecified) {
+    qdb_warn("redis.mode must be specified.");
+    return false;
+  }
+
   return out.isValid();
 }
 
diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..917c41e 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,7 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
-- 
2.43.0


From 819d3c9574ac802b0b46f8735ecce21ed4786e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 50/63] fix: an option without a value took the first word of
 the next line as its value

---
 src/Configuration.cc              |  4 +---
 src/config/ConfigurationReader.cc | 22 ++++++++++++++++++++++
 src/config/ConfigurationReader.hh |  6 ++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index dc27017..2b935ed 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -48,9 +48,7 @@ bool Configuration::fromFile(const std::string &filename, Configuration &out) {
 }
 
 static bool fetchSingle(ConfigurationReader &reader, std::string &dest) {
-  reader.advanceWord();
-
-  if(reader.eof()) {
+  if(!reader.advanceWordInLine()) {
     return false;
   }
 
diff --git a/src/config/ConfigurationReader.cc b/src/config/ConfigurationReader.cc
index 1151a44..23587be 100644
--- a/src/config/ConfigurationReader.cc
+++ b/src/config/ConfigurationReader.cc
@@ -74,6 +74,28 @@ void ConfigurationReader::advanceWord() {
   mPosition = findNextNonWhitespace();
 }
 
+//------------------------------------------------------------------------------
+// Advance to next word, as long as it's on the same line
+//------------------------------------------------------------------------------
+bool ConfigurationReader::advanceWordInLine() {
+  size_t pos = findNextWhitespace();
+
+  while(pos < mContents.size() && isspace(mContents[pos])) {
+    if(mContents[pos] == '\n') {
+      return false;
+    }
+
+    pos++;
+  }
+
+  if(pos >= mContents.size()) {
+    return false;
+  }
+
+  mPosition = pos;
+  return true;
+}
+
 //------------------------------------------------------------------------------
 // Advance to next line
 //------------------------------------------------------------------------------
diff --git a/src/config/ConfigurationReader.hh b/src/config/ConfigurationReader.hh
index 10368b5..f3db9c5 100644
--- a/src/config/ConfigurationReader.hh
+++ b/src/config/ConfigurationReader.hh
@@ -48,6 +48,12 @@ public:
   //----------------------------------------------------------------------------
   void advanceWord();
 
+  //----------------------------------------------------------------------------
+  // Advance to next word, as long as it's on the same line. Returns false if
+  // there are no more words on the current line: The position is not changed.
+  //----------------------------------------------------------------------------
+  bool advanceWordInLine();
+
   //----------------------------------------------------------------------------
   // Advance to next line
   //----------------------------------------------------------------------------
-- 
2.43.0


From 61edddadb55e834b4d5231b973b3907601feae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 51/63] fix: an empty password file disabled authentication

---
 src/Configuration.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 2b935ed..3add4de 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -243,5 +243,9 @@ std::string Configuration::extractPasswordOrDie() const {
     qdb_throw("Could not read password file: " << passwordFilePath);
   }
 
+  if(contents.empty()) {
+    qdb_throw("Password file contains no password: " << passwordFilePath);
+  }
+
   return contents;
 }
-- 
2.43.0


From 5d9a8ff06b870f67b2fbc4134f9edb8f5cdad1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:51 +0000
Subject: [PATCH 52/63] fix: a server address with a missing port or one which
 does not fit was replaced by a different one

---
 src/Utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..b74c9ec 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -99,6 +99,7 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(parts[1].empty() || port != (int) port) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From 36f9421285a5f73fe840a176ade0bb6817f55e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 53/63] fix: a follower cut off from the cluster kept reporting
 itself part of the quorum

---
 src/raft/RaftDispatcher.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 76b8561..d2feb5b 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -753,9 +753,14 @@ NodeHealth RaftDispatcher::getHealth() {
 
   //----------------------------------------------------------------------------
   // Am I currently part of the quorum?
+  // If the leader has not contacted me for a while, I'm cut off from the quorum,
+  // even if the last leader I knew about has not been replaced yet.
   //----------------------------------------------------------------------------
   RaftStateSnapshotPtr snapshot = state.getSnapshot();
-  if(snapshot->leader.empty()) {
+  bool lostContact = snapshot->status == RaftStatus::FOLLOWER &&
+    std::chrono::steady_clock::now() - heartbeatTracker.getLastHeartbeat() > heartbeatTracker.getTimeouts().getHigh();
+
+  if(snapshot->leader.empty() || lostContact) {
     indicators.emplace_back(HealthStatus::kRed, "PART-OF-QUORUM", "No");
   }
   else {
-- 
2.43.0


From 9b5e72f5b9d35ae4570e0ee069cd8cf2dbf949f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:32 +0000
Subject: [PATCH 54/63] fix: a replica which went silent while streaming was
 shown as online indefinitely

---
 src/raft/RaftReplicator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 3cb14d3..f1fa2c7 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -249,6 +249,14 @@ void RaftReplicaTracker::monitorAckReception(ThreadAssistant &assistant) {
         streamingUpdates = false;
         return;
       }
+
+      attempts++;
+    }
+
+    if(attempts == 10) {
+      // The target has gone silent, stop streaming to stabilize it
+      streamingUpdates = false;
+      return;
     }
 
     // If we're here, an acknowledgement to AppendEntries has been received.
-- 
2.43.0


From de51516d76265391f73f2da204c71050fe96af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:02 +0000
Subject: [PATCH 55/63] fix: a node which ascended while an older leader's
 entries were still being processed stopped itself

---
 src/raft/RaftDispatcher.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index d2feb5b..c68c776 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -555,12 +555,22 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
 
   // check if ALL entries are duplicates. If so, I don't need to do anything.
   if(appendFrom < LogIndex(req.entries.size()) ) {
-    if(firstInconsistency <= journal.getCommitIndex()) {
+    bool alreadyCommitted = firstInconsistency <= journal.getCommitIndex();
+    bool alreadyApplied = firstInconsistency != journal.getLogSize() && firstInconsistency <= stateMachine.getLastApplied();
+
+    // The term may progress at any point, and this node could even ascend as
+    // leader, and commit entries of its own: Nothing wrong with that, the
+    // leader of the older term simply came too late.
+    if((alreadyCommitted || alreadyApplied) && state.getSnapshot()->term != snapshot->term) {
+      return {state.getSnapshot()->term, journal.getLogSize(), false, "My raft term progressed"};
+    }
+
+    if(alreadyCommitted) {
       qdb_throw("detected inconsistent entries for index " << firstInconsistency << ". "
       << " Leader attempted to overwrite a committed entry with one with different contents.");
     }
 
-    if(firstInconsistency != journal.getLogSize() && firstInconsistency <= stateMachine.getLastApplied()) {
+    if(alreadyApplied) {
       qdb_throw("raft invariant violation: Attempted to remove already applied entries as inconsistent. (first inconsistency: " << firstInconsistency << ", last applied: " << stateMachine.getLastApplied());
     }
 
-- 
2.43.0


From de950bf33c14c42360fd399736074279d12f356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:11 +0000
Subject: [PATCH 56/63] fix: line breaks in client-provided contents corrupted
 error and status replies

---
 src/Formatter.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..831bc58 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -21,6 +21,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.*
  ************************************************************************/
 
+#include <algorithm>
 #include "RedisRequest.hh"
 #include "raft/RaftCommon.hh"
 #include "Common.hh"
@@ -30,17 +31,28 @@
 #include "utils/Statistics.hh"
 using namespace quarkdb;
 
+//------------------------------------------------------------------------------
+// Errors and simple strings extend until the end of the line: Any line breaks
+// inside the message, such as ones found in user-provided contents, would be
+// interpreted as the start of a different response by the client.
+//------------------------------------------------------------------------------
+static std::string singleLine(std::string_view str) {
+  std::string retval(str);
+  std::replace_if(retval.begin(), retval.end(), [](char c) { return c == '\r' || c == '\n'; }, ' ');
+  return retval;
+}
+
 RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &location) {
   return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << location.toString() << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::err(std::string_view err) {
-  return RedisEncodedResponse(SSTR("-ERR " << err << "\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR " << singleLine(err) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::errArgs(std::string_view cmd) {
   qdb_warn("Received malformed " << quotes(cmd) << " command - wrong number of arguments");
-  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << cmd << "' command\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << singleLine(cmd) << "' command\r\n"));
 }
 
 RedisEncodedResponse Formatter::pong() {
@@ -58,7 +70,7 @@ RedisEncodedResponse Formatter::string(std::string_view str) {
 }
 
 void Formatter::status(std::ostringstream &ss, std::string_view str) {
-  ss << "+" << str << "\r\n";
+  ss << "+" << singleLine(str) << "\r\n";
 }
 
 RedisEncodedResponse Formatter::status(std::string_view str) {
@@ -107,7 +119,7 @@ RedisEncodedResponse Formatter::vector(const std::vector<std::string> &vec) {
 void Formatter::statusVector(std::ostringstream &ss, const std::vector<std::string> &vec) {
   ss << "*" << vec.size() << "\r\n";
   for(std::vector<std::string>::const_iterator it = vec.begin(); it != vec.end(); it++) {
-    ss << "+" << *it << "\r\n";
+    ss << "+" << singleLine(*it) << "\r\n";
   }
 }
 
@@ -218,7 +230,7 @@ RedisEncodedResponse Formatter::journalScan(LogIndex cursor, const std::vector<R
 }
 
 RedisEncodedResponse Formatter::noauth(std::string_view str) {
-  return RedisEncodedResponse(SSTR("-NOAUTH " << str << "\r\n"));
+  return RedisEncodedResponse(SSTR("-NOAUTH " << singleLine(str) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::versionedVector(uint64_t num, const std::vector<std::string> &vec) {
@@ -284,11 +296,11 @@ RedisEncodedResponse Formatter::vectorsWithHeaders(const std::vector<std::string
 
   for(size_t i = 0; i < headers.size(); i++) {
     ss << "*2\r\n";
-    ss << "+" << headers[i] << "\r\n";
+    ss << "+" << singleLine(headers[i]) << "\r\n";
 
     ss << "*" << data[i].size() << "\r\n";
     for(size_t j = 0; j < data[i].size(); j++) {
-      ss << "+" << data[i][j] << "\r\n";
+      ss << "+" << singleLine(data[i][j]) << "\r\n";
     }
   }
 
-- 
2.43.0


From 9390fdc6ee9f269d0a60614ea4abdc2e017e8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:18 +0000
Subject: [PATCH 57/63] fix: acknowledged recovery edits were lost on a power
 failure

---
 src/recovery/RecoveryEditor.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/recovery/RecoveryEditor.cc b/src/recovery/RecoveryEditor.cc
index 13ba6da..ac9f969 100644
--- a/src/recovery/RecoveryEditor.cc
+++ b/src/recovery/RecoveryEditor.cc
@@ -78,8 +78,17 @@ rocksdb::Status RecoveryEditor::get(std::string_view key, std::string &value) {
   return db->Get(rocksdb::ReadOptions(), key, &value);
 }
 
+//------------------------------------------------------------------------------
+// An edit which has been acknowledged needs to survive a power failure
+//------------------------------------------------------------------------------
+static rocksdb::WriteOptions syncedWrite() {
+  rocksdb::WriteOptions opts;
+  opts.sync = true;
+  return opts;
+}
+
 rocksdb::Status RecoveryEditor::set(std::string_view key, std::string_view value) {
-  return db->Put(rocksdb::WriteOptions(), key, value);
+  return db->Put(syncedWrite(), key, value);
 }
 
 rocksdb::Status RecoveryEditor::del(std::string_view key) {
@@ -88,7 +97,7 @@ rocksdb::Status RecoveryEditor::del(std::string_view key) {
   rocksdb::Status st = db->Get(rocksdb::ReadOptions(), key, &tmp);
 
   if(st.IsNotFound()) {
-    rocksdb::Status st2 = db->Delete(rocksdb::WriteOptions(), key);
+    rocksdb::Status st2 = db->Delete(syncedWrite(), key);
     return rocksdb::Status::InvalidArgument("key not found, but I inserted a tombstone anyway. Deletion status: " + st2.ToString());
   }
 
@@ -96,7 +105,7 @@ rocksdb::Status RecoveryEditor::del(std::string_view key) {
     return st;
   }
 
-  return db->Delete(rocksdb::WriteOptions(), key);
+  return db->Delete(syncedWrite(), key);
 }
 
 using IteratorPtr = std::unique_ptr<rocksdb::Iterator>;
-- 
2.43.0


From 986b9324d0486f2e3bb12e569329984c880e2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:16 +0000
Subject: [PATCH 58/63] fix: an interrupted forced reconfiguration left behind
 a mixture of the old and new cluster

---
 src/recovery/RecoveryDispatcher.cc | 10 +---------
 src/recovery/RecoveryEditor.cc     | 15 +++++++++++++++
 src/recovery/RecoveryEditor.hh     |  1 +
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 3eda43c..4906230 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -102,15 +102,7 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
       }
 
       // All checks are clear, proceed
-      qdb_assert(editor.set(KeyConstants::kJournal_ClusterID, request[2]).ok());
-
-      qdb_assert(editor.set(KeyConstants::kJournal_Members, request[1]).ok());
-      qdb_assert(editor.set(KeyConstants::kJournal_MembershipEpoch, intToBinaryString(0)).ok());
-
-      editor.del(KeyConstants::kJournal_PreviousMembers);
-      editor.del(KeyConstants::kJournal_PreviousMembershipEpoch);
-
-      return Formatter::ok();
+      return Formatter::fromStatus(editor.forceReconfigureJournal(request[1], request[2]));
     }
     case RedisCommand::RECOVERY_SCAN: {
       if(request.size() < 2) return Formatter::errArgs(request[0]);
diff --git a/src/recovery/RecoveryEditor.cc b/src/recovery/RecoveryEditor.cc
index ac9f969..93fcada 100644
--- a/src/recovery/RecoveryEditor.cc
+++ b/src/recovery/RecoveryEditor.cc
@@ -25,6 +25,7 @@
 #include "storage/KeyConstants.hh"
 #include "Utils.hh"
 #include "utils/StringUtils.hh"
+#include "utils/IntToBinaryString.hh"
 #include "storage/InternalKeyParsing.hh"
 #include <rocksdb/status.h>
 #include <rocksdb/merge_operator.h>
@@ -108,6 +109,20 @@ rocksdb::Status RecoveryEditor::del(std::string_view key) {
   return db->Delete(syncedWrite(), key);
 }
 
+//------------------------------------------------------------------------------
+// All or nothing: a crash in-between must not leave behind a mixture of the old
+// and new cluster
+//------------------------------------------------------------------------------
+rocksdb::Status RecoveryEditor::forceReconfigureJournal(std::string_view members, std::string_view clusterID) {
+  rocksdb::WriteBatch batch;
+  batch.Put(KeyConstants::kJournal_ClusterID, clusterID);
+  batch.Put(KeyConstants::kJournal_Members, members);
+  batch.Put(KeyConstants::kJournal_MembershipEpoch, intToBinaryString(0));
+  batch.Delete(KeyConstants::kJournal_PreviousMembers);
+  batch.Delete(KeyConstants::kJournal_PreviousMembershipEpoch);
+  return db->Write(syncedWrite(), &batch);
+}
+
 using IteratorPtr = std::unique_ptr<rocksdb::Iterator>;
 
 rocksdb::Status RecoveryEditor::scan(std::string_view key, size_t count, std::string &nextCursor, std::vector<std::string> &elements) {
diff --git a/src/recovery/RecoveryEditor.hh b/src/recovery/RecoveryEditor.hh
index af3faa7..e6ff992 100644
--- a/src/recovery/RecoveryEditor.hh
+++ b/src/recovery/RecoveryEditor.hh
@@ -43,6 +43,7 @@ public:
   rocksdb::Status get(std::string_view key, std::string &value);
   rocksdb::Status set(std::string_view key, std::string_view value);
   rocksdb::Status del(std::string_view key);
+  rocksdb::Status forceReconfigureJournal(std::string_view members, std::string_view clusterID);
   rocksdb::Status scan(std::string_view key, size_t count, std::string &nextCursor, std::vector<std::string> &elements);
   rocksdb::Status getAllVersions(std::string_view key, std::vector<std::string> &output);
 
-- 
2.43.0


From e593492ed20b258df699f30c0471036c2fc402b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:16 +0000
Subject: [PATCH 59/63] fix: raw key listings in recovery mode ended early and
 looked complete after a read error

---
 src/recovery/RecoveryDispatcher.cc | 7 +++++--
 src/recovery/RecoveryEditor.cc     | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 4906230..590b1f5 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -114,7 +114,8 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
 
       std::string nextCursor;
       std::vector<std::string> results;
-      editor.scan(args.cursor, args.count, nextCursor, results);
+      rocksdb::Status st = editor.scan(args.cursor, args.count, nextCursor, results);
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       if(nextCursor == "") nextCursor = "0";
       else nextCursor = "next:" + nextCursor;
@@ -124,7 +125,9 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
       if(request.size() != 2) return Formatter::errArgs(request[0]);
 
       std::vector<std::string> results;
-      editor.getAllVersions(request[1], results);
+      rocksdb::Status st = editor.getAllVersions(request[1], results);
+      if(!st.ok()) return Formatter::fromStatus(st);
+
       return Formatter::vector(results);
     }
     default: {
diff --git a/src/recovery/RecoveryEditor.cc b/src/recovery/RecoveryEditor.cc
index 93fcada..7a1163b 100644
--- a/src/recovery/RecoveryEditor.cc
+++ b/src/recovery/RecoveryEditor.cc
@@ -152,12 +152,12 @@ rocksdb::Status RecoveryEditor::scan(std::string_view key, size_t count, std::st
     iter->Next();
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status RecoveryEditor::getAllVersions(std::string_view key, std::vector<std::string> &output) {
   std::vector<rocksdb::KeyVersion> versions;
-  rocksdb::GetAllKeyVersions(db.get(), key, key, std::numeric_limits<size_t>::max(), &versions);
+  rocksdb::Status st = rocksdb::GetAllKeyVersions(db.get(), key, key, std::numeric_limits<size_t>::max(), &versions);
 
   for(const rocksdb::KeyVersion& ver : versions) {
     output.emplace_back(SSTR("KEY: " << ver.user_key));
@@ -166,6 +166,6 @@ rocksdb::Status RecoveryEditor::getAllVersions(std::string_view key, std::vector
     output.emplace_back(SSTR("TYPE: " << ver.type));
   }
 
-  return rocksdb::Status::OK();
+  return st;
 }
 
-- 
2.43.0


From efff9ebd1ee3e19501addb1caa3a8a2112925317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:36 +0000
Subject: [PATCH 60/63] fix: HVALS replied with an empty list on errors and on
 keys of another type

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 4c4a60a..dfa76d3 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -578,6 +578,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From 556646431a3d07ce78779fbffea5b700ac8b4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:36 +0000
Subject: [PATCH 61/63] fix: a read error while iterating was mistaken for the
 end of the data

---
 src/StateMachine.cc                    | 28 +++++++++++++++-----------
 src/storage/ExpirationEventIterator.cc |  2 ++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index add18e2..06f23dd 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -242,6 +242,7 @@ void StateMachine::reset() {
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
     db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
   }
+  THROW_ON_ERROR(iter->status());
 
   ensureCompatibleFormat(true);
   ensureBulkloadSanity(true);
@@ -380,7 +381,7 @@ rocksdb::Status StateMachine::hkeys(StagingArea &stagingArea, std::string_view k
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     keys.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
   }
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::hgetall(StagingArea &stagingArea, std::string_view key, std::vector<std::string> &res) {
@@ -396,7 +397,7 @@ rocksdb::Status StateMachine::hgetall(StagingArea &stagingArea, std::string_view
     res.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
     res.push_back(iter->value().ToString());
   }
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 void StateMachine::lhsetInternal(WriteOperation &operation, std::string_view key, std::string_view field, std::string_view hint, std::string_view value, bool &fieldcreated) {
@@ -694,7 +695,7 @@ rocksdb::Status StateMachine::rawScanTombstones(StagingArea &stagingArea, std::s
     iter->Next();
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::rawScan(StagingArea &stagingArea, std::string_view key, size_t count, std::vector<std::string> &elements) {
@@ -711,7 +712,7 @@ rocksdb::Status StateMachine::rawScan(StagingArea &stagingArea, std::string_view
     elements.emplace_back(iter->value().ToString());
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, size_t count, std::string &newCursor, std::vector<std::string> &res) {
@@ -737,7 +738,7 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
     res.push_back(iter->value().ToString());
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, std::string_view matchloc, size_t count, std::string &newCursor, std::vector<std::string> &results) {
@@ -822,7 +823,7 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     }
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 
@@ -848,7 +849,7 @@ rocksdb::Status StateMachine::sscan(StagingArea &stagingArea, std::string_view k
     res.push_back(fieldname);
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::string_view key, std::string_view cursor, size_t count, std::string &newCursor, std::vector<std::string> &res) {
@@ -914,7 +915,7 @@ rocksdb::Status StateMachine::hvals(StagingArea &stagingArea, std::string_view k
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     vals.push_back(iter->value().ToString());
   }
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::sadd(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &added) {
@@ -1008,7 +1009,7 @@ rocksdb::Status StateMachine::smembers(StagingArea &stagingArea, std::string_vie
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     members.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
   }
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::scard(StagingArea &stagingArea, std::string_view key, size_t &count) {
@@ -1053,7 +1054,7 @@ rocksdb::Status StateMachine::configGetall(StagingArea &stagingArea, std::vector
     res.push_back(iter->value().ToString());
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 StateMachine::WriteOperation::~WriteOperation() {
@@ -1513,7 +1514,7 @@ rocksdb::Status StateMachine::vhgetall(StagingArea &stagingArea, std::string_vie
   }
 
   version = keyinfo.getStartIndex();
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::hclone(StagingArea &stagingArea, std::string_view source, std::string_view target) {
@@ -1784,6 +1785,9 @@ void StateMachine::remove_all_with_prefix(std::string_view prefix, int64_t &remo
     stagingArea.del(key);
     removed++;
   }
+
+  // Keys left behind due to a read error would make this replica diverge
+  THROW_ON_ERROR(iter->status());
 }
 
 rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
@@ -1913,7 +1917,7 @@ rocksdb::Status StateMachine::scan(StagingArea &stagingArea, std::string_view cu
   }
 
   newcursor.clear();
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
diff --git a/src/storage/ExpirationEventIterator.cc b/src/storage/ExpirationEventIterator.cc
index 5a7ce02..34af4a5 100644
--- a/src/storage/ExpirationEventIterator.cc
+++ b/src/storage/ExpirationEventIterator.cc
@@ -25,6 +25,7 @@
 #include "storage/StagingArea.hh"
 #include "storage/KeyLocators.hh"
 #include "utils/IntToBinaryString.hh"
+#include "Utils.hh"
 
 using namespace quarkdb;
 
@@ -43,6 +44,7 @@ ExpirationEventIterator::~ExpirationEventIterator() {
 bool ExpirationEventIterator::valid() {
   if(!iter) return false;
   if(!iter->Valid()) {
+    if(!iter->status().ok()) qdb_throw("unable to read expiration events: " << iter->status().ToString());
     iter.reset();
     return false;
   }
-- 
2.43.0


From eaa568385b8fa8810fc5dc7b5677757cc1ff2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 62/63] fix: a target resilvered because of a diverging journal
 was resilvered over and over

---
 src/raft/RaftReplicator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index f1fa2c7..d8163ec 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -559,6 +559,15 @@ void RaftReplicaTracker::main() {
     divergesBeforeJournal = !resp.outcome && journal.getLogStart() > 0
       && nextIndex <= resp.logSize && nextIndex-1 <= journal.getLogStart();
 
+    // Check: Has the target's diverging journal just been replaced? If so, my
+    // nextIndex is about the old one: the new journal may have been trimmed
+    // beyond it already.
+    if(divergesBeforeJournal && resilverer && resilverer->getStatus().state == ResilveringState::SUCCEEDED) {
+      resilverer.reset();
+      nextIndex = journal.getLogSize();
+      goto nextRound;
+    }
+
     // Check: Does the target need resilvering?
     if(resp.logSize <= journal.getLogStart() || divergesBeforeJournal) {
       if(!divergesBeforeJournal) nextIndex = journal.getLogSize();
-- 
2.43.0


From 8a841513a6d6c6697890f18af0a5e13da7cbc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:00 +0000
Subject: [PATCH 63/63] fix: a malformed entry in RAFT_APPEND_ENTRIES was read
 past its end and ended the process

---
 src/raft/RaftCommon.hh | 22 ++++++++++++++--------
 src/raft/RaftUtils.cc  |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..c8d043e 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,26 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
+
     entry.term = fetch_int_from_string(data.data());
+    data.remove_prefix(sizeof(term));
 
-    const char *pos = data.data() + sizeof(term);
-    const char *end = data.data() + data.size();
+    while(!data.empty()) {
+      int64_t len;
+      if(data.size() < sizeof(len)) return false;
 
-    while(pos < end) {
-      int64_t len = fetch_int_from_string(pos);
-      pos += sizeof(len);
+      len = fetch_int_from_string(data.data());
+      data.remove_prefix(sizeof(len));
+      if(len < 0 || (size_t) len > data.size()) return false;
 
-      entry.request.emplace_back(pos, len);
-      pos += len;
+      entry.request.emplace_back(data.data(), len);
+      data.remove_prefix(len);
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index 2e8eb5c..8445b6d 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -167,7 +167,7 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
     index++;
   }
 
-- 
2.43.0

