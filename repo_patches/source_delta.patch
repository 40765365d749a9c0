From 3f5c70c199b9abd2163edf2fe46ab6d31e24a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 01/13] fix: a removed leader must not answer read requests on
 its own

With a single voter left, the shortcut answered every read from the local
commit index even when that voter was another node, i.e. when the leader had
been removed or demoted and could already be deposed.
---
 src/raft.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..621d52a 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1038,8 +1038,9 @@ Status Raft::StepLeader(MsgPtr m) {
       return Status::OK();
     }
     case raftpb::MessageType::MsgReadIndex: {
-      // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      // only one voting member (the leader) in the cluster; a leader that was
+      // removed or demoted is not that member and has to confirm its leadership
+      if (trk_.IsSingleton() && Promotable()) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 5a710b53ed3526acb7973458af3ad8e01d5919aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 02/13] fix: count only pre-votes granted for the term being
 campaigned for

A late MsgPreVoteResp from an earlier attempt could win a later pre-election
and let a partitioned node raise its term without a pre-vote quorum.
---
 src/raft.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 621d52a..c52f309 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1397,6 +1397,14 @@ Status Raft::StepCandidate(MsgPtr m) {
     HandleSnapshot(m);
     return Status::OK();
   } else if (m->type() == my_vote_resp_type) {
+    if (state_ == RaftStateType::kPreCandidate && !m->reject() &&
+        m->term() != term_ + 1) {
+      // A pre-vote is granted for the term asked for; this one answers an
+      // earlier attempt.
+      CRAFT_LOG_INFO(logger_, "%llu [term %llu] ignored stale MsgPreVoteResp from %llu for term %llu",
+                id_, term_, m->from(), m->term());
+      return Status::OK();
+    }
     auto [gr, rj, res] = Poll(m->from(), m->type(), !m->reject());
     CRAFT_LOG_INFO(logger_, "%llu has received %lld %s votes and %lld vote rejections", id_,
               gr, raftpb::MessageType_Name(m->type()).c_str(), rj);
-- 
2.43.0


From f1616a851f238afb143401b7ed21b7851a687170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 03/13] fix: refuse to bootstrap a nonempty storage

RawNode::Bootstrap documents an error for this case but overwrote the
existing log with fresh configuration entries of term 1.
---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..00035b9 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From 3cda0c2dbb1eac692123b8cb768e36d2822ac6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 04/13] fix: CreateSnapshot must not modify snapshots handed
 out earlier

It rewrote the shared snapshot object in place, so a snapshot obtained from
SnapShot(), queued in a message or passed to ApplySnapshot changed under its
holder, without the lock.
---
 src/storage.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..ce84b87 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,18 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // The current snapshot may already have been handed out, so make a new one.
+  auto snapshot = std::make_shared<raftpb::Snapshot>();
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
+  } else {
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = snapshot_->metadata().conf_state();
   }
+  *(snapshot->mutable_data()) = data;
 
-  *(snapshot_->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From 0675927b8bce1ed6f49c97e669c7b8305981618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 05/13] fix: take the lock in MemoryStorage::InitialState

It read the hard state and the snapshot while another thread could be
writing them.
---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index ce84b87..938036c 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From 867c6d328a0d08f03fca0bbea6353b12f1b11185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 06/13] fix: Inflights::FreeFirstOne is a no-op when nothing is
 in flight

As documented; it read past the end of the empty buffer.
---
 src/tracker/inflights.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..dbfc305 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,12 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ == 0) {
+    return;
+  }
+  FreeLE(buffer_[start_]);
+}
 
 void Inflights::Grow() {
   int32_t new_size = buffer_.size() * 2;
-- 
2.43.0


From e80c3925c89b410a9027a2f10eb119de66362666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 07/13] fix: Ready::String dereferenced a null snapshot

The test was inverted: printing a Ready without a snapshot crashed and one
with a snapshot did not show it.
---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index c52f309..76d3cd8 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (snapshot) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From 7cf0bda3d214041eacedb38aeda94195fadf2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 08/13] fix: ConfChangesFromString must reject malformed node
 ids

strtoull never throws: "vx" became node 0, "v1x" node 1, "v-1" and ids
beyond 64 bits some huge node. They are errors now.
---
 src/raftpb/confchange.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 9882217..1a9de33 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -13,6 +13,7 @@
 // limitations under the License.
 #include "src/raftpb/confchange.h"
 
+#include <charconv>
 #include <sstream>
 
 #include "src/logger.h"
@@ -114,10 +115,9 @@ std::tuple<std::vector<raftpb::ConfChangeSingle>, Status> ConfChangesFromString(
       return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow input: %s", token.c_str()));
     }
     uint64_t id;
-    try {
-      id = std::strtoull(token.data()+1, nullptr, 10);
-    } catch (const std::exception& e) {
-      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", e.what()));
+    auto [end, ec] = std::from_chars(token.data() + 1, token.data() + token.size(), id);
+    if (ec != std::errc() || end != token.data() + token.size()) {
+      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", token.c_str()));
     }
     cc.set_node_id(id);
     ccs.emplace_back(cc);
-- 
2.43.0


From 22f91bb0adf89b0f292701989e8f04ab5d90c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 09/13] fix: CreateSnapshot must refuse an index that is
 already compacted

---
 src/storage.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 938036c..f5a1b9e 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -145,6 +145,9 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
 
   assert(!ents_.empty());
   uint64_t offset = ents_[0]->index();
+  if (i < offset) {
+    return std::make_tuple(SnapshotPtr(), Status::Error(kErrCompacted));
+  }
   if (i > LastIndexUnSafe()) {
     // panic
     CRAFT_LOG_FATAL(logger_, "snapshot %d is out of bound lastindex(%d)", i,
-- 
2.43.0


From 6dac1b5f0569c330cc9cbf671a71e8049d2def56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 10/13] fix: a conf change refused for the quota must not count
 as pending

---
 src/raft.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 76d3cd8..406a144 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -990,6 +990,7 @@ Status Raft::StepLeader(MsgPtr m) {
         return Status::Error(kErrProposalDropped);
       }
 
+      auto prev_pending_conf_index = pending_conf_index_;
       for (int i = 0; i < m->entries_size(); i++) {
         auto& e = m->entries()[i];
         ConfChangeI cc;
@@ -1032,6 +1033,8 @@ Status Raft::StepLeader(MsgPtr m) {
       }
 
       if (!AppendEntry(Util::MakeEntries(m))) {
+        // Nothing was appended, so no conf change became pending.
+        pending_conf_index_ = prev_pending_conf_index;
         return Status::Error(kErrProposalDropped);
       }
       BcastAppend();
-- 
2.43.0


From 69ad96be38a7b887493f6258ff75c0fbdc4553b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 11/13] fix: Inflights works with windows of 2^31 and more

---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index dbfc305..ed7e69d 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -71,7 +71,7 @@ void Inflights::FreeFirstOne() {
 }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = buffer_.size() * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From 1bdae40e1208dd67486663997c96872c8f4b9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:26 +0000
Subject: [PATCH 12/13] fix: forget postponed reads when the leader steps down

A read request that arrives before a leader has committed anything of its
term is kept until it has.  A leader that stepped down first kept it for
good: the list grew with every such term.
---
 src/raft.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft.cc b/src/raft.cc
index 406a144..5d14e58 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -499,6 +499,7 @@ void Raft::Reset(uint64_t term) {
   pending_conf_index_ = 0;
   uncommitted_size_ = 0;
   read_only_ = std::make_unique<ReadOnly>(logger_, read_only_->Option());
+  pending_read_index_messages_.clear();
 }
 
 bool Raft::AppendEntry(const EntryPtr& e) {
-- 
2.43.0


From 51fca4f9915d810ec24e3a83fcc5d7db095ea889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:26 +0000
Subject: [PATCH 13/13] fix: MemoryStorage::Entries formed iterators far
 outside its entries

begin() + lo steps past the end of the deque before the offset is taken off
again, which reads memory that is not its own once the log was compacted,
and crashes when positions are large.
---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index f5a1b9e..8ae3435 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -76,7 +76,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0

