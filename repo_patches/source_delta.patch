From 0113422498055211be1a36702f6ab983dcd73701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:27 +0000
Subject: [PATCH 01/30] fix: tolerate BF abort racing with certification
 failure paths

certify_commit() and certify_fragment() release the client state mutex
while replicating, so the transaction may already be in must_abort state
when the mutex is taken again in a failure path. Switching to must_abort
again is not an allowed transition and asserts.
---
 src/transaction.cpp | 50 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..27970ca 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1521,7 +1521,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1530,7 +1533,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1548,7 +1554,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1796,7 +1805,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1879,11 +1891,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1924,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1966,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From 87923d82382635a43dbdc6ec41025a5f89e5c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/30] fix: do not lose BF abort when the fragment to
 replicate is empty

If the transaction was BF aborted while an empty fragment was being
prepared, certify_fragment() moved the transaction from must_abort back
to executing.
---
 src/transaction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 27970ca..393fd86 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1546,6 +1546,12 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            // BF aborted while the lock was released
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
-- 
2.43.0


From 3bec7c0e26fc19ec09b4a7d886a221803c0fa224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:43 +0000
Subject: [PATCH 03/30] fix: abort streaming transaction if statement is not
 allowed to commit

before_prepare() returned an error with the transaction still in
executing state, which violates its postcondition.
---
 src/transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 393fd86..c338c5f 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -336,6 +336,10 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
             }
+            else if (ret && state() == s_executing)
+            {
+                state(lock, s_must_abort);
+            }
         }
 
         if (ret == 0)
-- 
2.43.0


From 67507d922a53efe4dc3d371964dd73be8b58770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/30] fix: BF abort must not continue on a victim which has
 rolled back

A BF aborter which waits in streaming_rollback() for the owning client to
finish its rollback could continue after the client had cleaned up the
transaction: it then converted a streaming client which does not exist,
replicated a rollback fragment with undefined transaction id and might
have scheduled background rollback for the next transaction.
---
 src/transaction.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index c338c5f..ea69f6f 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1078,7 +1078,14 @@ bool wsrep::transaction::bf_abort(
         if (client_state_.mode() == wsrep::client_state::m_local &&
             is_streaming() && state_at_enter == s_executing)
         {
+            const wsrep::transaction_id trx_id(id_);
             streaming_rollback(lock);
+            if (id_ != trx_id || state() != s_must_abort)
+            {
+                // The victim rolled back by itself while the lock was
+                // released in streaming_rollback().
+                return ret;
+            }
         }
 
         if ((client_state_.state() == wsrep::client_state::s_idle &&
@@ -2044,8 +2051,16 @@ void wsrep::transaction::streaming_rollback(
     // while the original client manages to complete its rollback
     // and therefore change the state of the transaction, causing
     // assertions to fire.
+    const wsrep::transaction_id trx_id(id_);
     while (streaming_rollback_in_progress_)
         client_state_.cond_.wait(lock);
+    if (is_streaming() == false || id_ != trx_id)
+    {
+        // The other thread completed the rollback while this thread
+        // was waiting, the transaction is already gone.
+        debug_log_state("streaming_rollback leave");
+        return;
+    }
     streaming_rollback_in_progress_ = true;
 
     if (streaming_context_.rolled_back() == false)
-- 
2.43.0


From af8f95a93e68f60631522089eb5ebfecdff524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 05/30] fix: failed total order BF abort must not undo a
 successful one

total_order_bf_abort() cleared bf_aborted_in_total_order_ whenever it was
refused, also if the transaction had already been BF aborted in total
order by an earlier call.
---
 src/transaction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index ea69f6f..6017998 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1132,13 +1132,14 @@ bool wsrep::transaction::total_order_bf_abort(
 {
     /* We must set this flag before entering bf_abort() in order
      * to streaming_rollback() work correctly. The flag will be
-     * unset if BF abort was not allowed. Note that we rely in
+     * restored if BF abort was not allowed. Note that we rely in
      * bf_abort() not to release lock if the BF abort is not allowed. */
+    const bool was_aborted_in_total_order(bf_aborted_in_total_order_);
     bf_aborted_in_total_order_ = true;
     bool ret(bf_abort(lock, bf_seqno, victim_ctx));
     if (not ret)
     {
-        bf_aborted_in_total_order_ = false;
+        bf_aborted_in_total_order_ = was_aborted_in_total_order;
     }
     return ret;
 }
-- 
2.43.0


From a7d07e7307b17af7271f05d2a1ab9605d846f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 06/30] fix: report an error if pending rollback events cannot
 be replicated

---
 src/transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6017998..a76967e 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1537,6 +1537,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_deadlock_error);
         return 1;
     }
 
@@ -1827,6 +1828,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_deadlock_error);
             return 1;
         }
     }
-- 
2.43.0


From 0f8e0ea7b6de5378b449e578fb9f953ec368c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:35 +0000
Subject: [PATCH 07/30] fix: report failed rollback of a failed fragment

When applying the first fragment of a streaming transaction failed and the
rollback of it failed too, the result of logging the dummy write set
replaced the rollback failure: the streaming applier was discarded with its
transaction open and on_apply() reported success.
---
 src/server_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..ed910fa 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -120,8 +120,8 @@ static int apply_fragment(wsrep::server_state& server_state,
             }
             else
             {
-                ret = streaming_applier->log_dummy_write_set(ws_handle,
-                                                             ws_meta, err);
+                ret = ret || streaming_applier->log_dummy_write_set(
+                    ws_handle, ws_meta, err);
             }
         }
     }
-- 
2.43.0


From a64acc7ebe48a38efadd1f695147667cbf5ac383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:35 +0000
Subject: [PATCH 08/30] fix: roll back adopted transaction if closing an orphan
 fails

close_orphaned_sr_transactions() ignored failures to remove the fragments
and to commit the removal. After a failed commit the applier was left with
the adopted transaction open, and the next write set could not be started.
Roll the transaction back, like rollback_fragment() does.
---
 src/server_state.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ed910fa..6815ec0 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1564,9 +1564,12 @@ void wsrep::server_state::close_orphaned_sr_transactions(
             lock.unlock();
             if (adopt_error == 0)
             {
-                high_priority_service.remove_fragments(ws_meta);
-                high_priority_service.commit(wsrep::ws_handle(transaction_id, 0),
-                                             ws_meta);
+                const wsrep::ws_handle ws_handle(transaction_id, 0);
+                if (high_priority_service.remove_fragments(ws_meta) ||
+                    high_priority_service.commit(ws_handle, ws_meta))
+                {
+                    high_priority_service.rollback(ws_handle, ws_meta);
+                }
             }
             high_priority_service.after_apply();
             lock.lock();
-- 
2.43.0


From abe392b6b7138aa5a090eef86b39762cde8bbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 09/30] fix: consume position of a rollback fragment if
 adopting fails

If the applier could not adopt the streaming transaction, the rollback
fragment was neither committed nor logged as dummy write set: on_apply()
returned success without having gone through commit order.
---
 src/server_state.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 6815ec0..c2a537f 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -246,27 +246,23 @@ static int rollback_fragment(wsrep::server_state& server_state,
         discard_streaming_applier(server_state, high_priority_service,
                                   streaming_applier, ws_meta);
 
-        if (adopt_error == 0)
+        if (remove_fragments && adopt_error == 0)
         {
-            if (remove_fragments)
+            ret = high_priority_service.remove_fragments(ws_meta);
+            ret = ret || high_priority_service.commit(ws_handle, ws_meta);
+            if (ret)
             {
-                ret = high_priority_service.remove_fragments(ws_meta);
-                ret = ret || high_priority_service.commit(ws_handle, ws_meta);
-                if (ret)
-                {
-                    high_priority_service.rollback(ws_handle, ws_meta);
-                }
-                high_priority_service.after_apply();
-            }
-            else
-            {
-                if (ws_meta.ordered())
-                {
-                    wsrep::mutable_buffer no_error;
-                    ret = high_priority_service.log_dummy_write_set(
-                        ws_handle, ws_meta, no_error);
-                }
+                high_priority_service.rollback(ws_handle, ws_meta);
             }
+            high_priority_service.after_apply();
+        }
+        else if (ws_meta.ordered())
+        {
+            // Nothing to remove or adopting failed, the position of
+            // the rollback fragment must be consumed anyway.
+            wsrep::mutable_buffer no_error;
+            ret = high_priority_service.log_dummy_write_set(
+                ws_handle, ws_meta, no_error);
         }
     }
     return ret;
-- 
2.43.0


From 53b3e982082434aed193355ec2e259246a43726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:39 +0000
Subject: [PATCH 10/30] fix: do not announce joined state before recovered
 position is checked

sst_received() changed the server state to joined before checking the
recovered position against the recovered view. A bogus position was then
rejected and reported as failed state transfer, but the server had already
become joined and threads waiting for the joined state had been released.
---
 src/server_state.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c2a537f..ada9ac3 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -736,15 +736,6 @@ try
         gtid = server_service_.get_position(cs);
         wsrep::log_info() << "Recovered position from storage: " << gtid;
 
-        lock.lock();
-        if (gtid.seqno() >= connected_gtid().seqno())
-        {
-            /* Now the node has all the data the cluster has: part in
-             * storage, part in replication event queue. */
-            state(lock, s_joined);
-        }
-        lock.unlock();
-
         wsrep::view const v(server_service_.get_view(cs, id_));
         wsrep::log_info() << "Recovered view from SST:\n" << v;
 
@@ -789,6 +780,12 @@ try
                 << "malfunction.";
         }
         lock.lock();
+        if (gtid.seqno() >= connected_gtid().seqno())
+        {
+            /* Now the node has all the data the cluster has: part in
+             * storage, part in replication event queue. */
+            state(lock, s_joined);
+        }
         recover_streaming_appliers_if_not_recovered(lock, cs);
         lock.unlock();
     }
-- 
2.43.0


From 003e1572afdb16ee7847eaab36822234f662ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:20 +0000
Subject: [PATCH 11/30] fix: waits for server state missed states and
 disconnects

A thread in wait_until_state() looked only at the state it found when it
gained control. If other threads changed the state in the meantime, a state
which had been reached was missed, or reported as interrupted; a wait begun
while the server was disconnecting was not interrupted at all, which left
the view handler waiting for s_initialized forever; and a wait begun in
disconnected state was interrupted by any notification. Check all the
states the server has been in since the beginning of the wait.
---
 src/server_state.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ada9ac3..7a0711b 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1387,22 +1387,35 @@ void wsrep::server_state::wait_until_state(
     wsrep::unique_lock<wsrep::mutex>& lock,
     enum wsrep::server_state::state state) const
 {
+    // If the waiter waits for any other state than disconnecting
+    // or disconnected and the state has been changed to disconnecting,
+    // this usually means that some error was encountered
+    const bool interruptible(state != s_disconnecting &&
+                             state != s_disconnected);
+    // The state may be changed more than once before the waiter gains
+    // control, so all of the states after the current one are checked.
+    std::vector<enum state>::size_type pos(state_hist_.size());
+    enum state current(state_);
+    bool interrupted(interruptible && current == s_disconnecting);
     ++state_waiters_[state];
-    while (state_ != state)
+    while (current != state && not interrupted)
     {
-        cond_.wait(lock);
-        // If the waiter waits for any other state than disconnecting
-        // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered 
-        if (state != s_disconnecting && state != s_disconnected
-            && (state_ == s_disconnecting || state_ == s_disconnected))
+        if (pos == state_hist_.size())
         {
-          --state_waiters_[state];
-            throw wsrep::runtime_error("State wait was interrupted");
+            cond_.wait(lock);
+            continue;
         }
+        ++pos;
+        current = (pos < state_hist_.size() ? state_hist_[pos] : state_);
+        interrupted = (interruptible && (current == s_disconnecting ||
+                                         current == s_disconnected));
     }
     --state_waiters_[state];
     cond_.notify_all();
+    if (interrupted)
+    {
+        throw wsrep::runtime_error("State wait was interrupted");
+    }
 }
 
 int wsrep::server_state::wait_until_state(enum state state) const
-- 
2.43.0


From f8dea6422affa056e36e2dbdb30cb61838981838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:20 +0000
Subject: [PATCH 12/30] fix: allow state transfer to end while the server is
 disconnecting

The assertion in sst_received() failed if the server was disconnected while
the state transfer was in progress, although later state changes are
ignored in disconnecting state on purpose.
---
 src/server_state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 7a0711b..baab2cd 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -705,7 +705,8 @@ try
     wsrep::log_info() << "SST received";
     wsrep::gtid gtid(wsrep::gtid::undefined());
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    assert(state_ == s_joiner || state_ == s_initialized);
+    assert(state_ == s_joiner || state_ == s_initialized ||
+           state_ == s_disconnecting);
 
     // Run initialization only if the SST was successful.
     // In case of SST failure the system is in undefined state
-- 
2.43.0


From 9bef2c30bf59730a4a7af31b9d132149179b1d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:05 +0000
Subject: [PATCH 13/30] fix: server may be disconnected before its
 initialization completes

If storage is initialized after state transfer and the server was
disconnected meanwhile, initialized() tried an unallowed state transition
from disconnected to initialized.
---
 src/server_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index baab2cd..a40d293 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -817,7 +817,12 @@ void wsrep::server_state::initialized()
     init_initialized_ = true;
     if (server_service_.sst_before_init())
     {
-        state(lock, s_initialized);
+        // The server may have been disconnected during initialization,
+        // in that case the state is restored by the next connect.
+        if (state_ != s_disconnected)
+        {
+            state(lock, s_initialized);
+        }
     }
     else
     {
-- 
2.43.0


From 110e340473a376b24e14a215ca2ec3edfd9d3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:07 +0000
Subject: [PATCH 14/30] fix: wake up waiting pausers if pausing the provider
 fails

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index a40d293..ce8145f 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -572,6 +572,7 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From bdc928e2b936c221e99a4ab84f826c2e0461524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:12 +0000
Subject: [PATCH 15/30] fix: do not undo a desync which failed when pausing
 fails

---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ce8145f..4b4ce50 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -618,7 +618,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From 447bb96f61febcf7d54817acf8cc56299384af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 16/30] fix: reporter did not expect an initialized server to
 join again

---
 src/reporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..fc92e75 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -100,6 +100,8 @@ wsrep::reporter::substate_map(enum wsrep::server_state::state const state)
             return s_joining_initializing;
         else if (s_joining_initializing == state_)
             return s_joining_initializing; // continuation
+        else if (s_joining_initialized == state_)
+            return s_joining_initialized; // joining again
         else
         {
             assert(0);
@@ -113,6 +115,8 @@ wsrep::reporter::substate_map(enum wsrep::server_state::state const state)
             return s_joining_ist;
         else if (s_joining_ist == state_)
             return s_joining_ist; // continuation
+        else if (s_joining_initialized == state_)
+            return s_joining_initialized; // joining again
         else
         {
             assert(0);
-- 
2.43.0


From c5f37108ac2349626327c0d0f75244b2930cd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 17/30] fix: compare log messages in the form in which they are
 stored

---
 src/reporter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index fc92e75..d92b60f 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -359,16 +359,17 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
-    {
-        if (deque.size() == max_msg_) deque.pop_front();
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    std::string const escaped(escape_json(msg));
 
+    if (deque.empty() || escaped != deque.back().msg)
+    {
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped});
         deque.push_back(entry);
+        if (deque.size() > max_msg_) deque.pop_front();
         write_file(tstamp);
     }
 }
-- 
2.43.0


From a94475b6916c7a73219b2ad621ad6bf99047e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 18/30] fix: reporter which keeps no messages removed from an
 empty queue

---
 src/reporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index d92b60f..b64db37 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -342,11 +342,11 @@ void
 wsrep::reporter::report_event(const std::string& json)
 {
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    if (events_.size() == max_msg_)
+    events_.push_back({timestamp(), json});
+    if (events_.size() > max_msg_)
     {
         events_.pop_front();
     }
-    events_.push_back({timestamp(), json});
     write_file(timestamp());
 }
 
-- 
2.43.0


From 5593c21ceed24d9af29edf9349a1795aa36523e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 19/30] fix: do not publish partially written report, remove
 temporary file

---
 src/reporter.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index b64db37..f8b66dd 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -288,18 +288,37 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
+    size_t written(0);
+    while (written < str.length())
+    {
+        ssize_t const ret(write(fd, str.c_str() + written,
+                                str.length() - written));
+        if (ret <= 0)
+        {
+            if (ret < 0 && errno == EINTR) continue;
+            break;
+        }
+        written += size_t(ret);
+    }
+    int const err(errno);
     close(fd);
-    if (err < 0)
+    if (written < str.length())
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
-                  << template_ << "': " << strerror(errno)
-                  << " (" << errno << ")\n";
+                  << template_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "' to '" << file_name_ << "': " << strerror(errno)
+                  << " (" << errno << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From ba6ef9b0233891d4cd2e60ca942992fc699885bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 20/30] fix: replay only prepared XA transactions without
 ordering

An XA transaction which streams fragments but is not prepared yet is
rolled back cluster wide when it is BF aborted. It was treated as a
prepared one if the abort was noticed in before_commit() or after the
command, and then replayed (or even committed by xid) after its rollback
had been replicated, and the client was not told.
---
 include/wsrep/transaction.hpp | 8 ++++++++
 src/transaction.cpp           | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/wsrep/transaction.hpp b/include/wsrep/transaction.hpp
index 201c3b5..ab89144 100644
--- a/include/wsrep/transaction.hpp
+++ b/include/wsrep/transaction.hpp
@@ -259,6 +259,14 @@ namespace wsrep
             wsrep::unique_lock<wsrep::mutex>&);
         void streaming_rollback(wsrep::unique_lock<wsrep::mutex>&);
         int replay(wsrep::unique_lock<wsrep::mutex>&);
+        /** Return true if the transaction is a prepared XA transaction
+         * which was BF aborted after it was prepared. Such transaction
+         * must not be rolled back implicitly. */
+        bool bf_aborted_when_prepared() const
+        {
+            return (is_xa() && is_streaming() &&
+                    bf_abort_state_ == s_prepared);
+        }
         void xa_replay_common(wsrep::unique_lock<wsrep::mutex>&);
         int xa_replay_commit(wsrep::unique_lock<wsrep::mutex>&);
         void cleanup();
diff --git a/src/transaction.cpp b/src/transaction.cpp
index a76967e..d104fea 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -488,8 +488,7 @@ int wsrep::transaction::before_commit(const wsrep::provider::seq_cb* seq_cb)
         else if (state() != s_committing && state() != s_prepared)
         {
             assert(state() == s_must_abort);
-            if (certified() ||
-                (is_xa() && is_streaming()))
+            if (certified() || bf_aborted_when_prepared())
             {
                 state(lock, s_must_replay);
             }
@@ -950,7 +949,8 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    const bool replay_prepared(bf_aborted_when_prepared());
+    if (replay_prepared)
     {
         state(lock, s_must_replay);
     }
@@ -959,7 +959,7 @@ void wsrep::transaction::after_command_must_abort(
     client_service_.bf_rollback();
     lock.lock();
 
-    if (is_xa() && is_streaming())
+    if (replay_prepared)
     {
         xa_replay(lock);
     }
-- 
2.43.0


From 4448353191dfe96402b7e6a57f0b97a8c74f5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 21/30] fix: do not roll back BF aborted prepared XA
 transaction in after_statement()

A prepared XA transaction must stay prepared until it is committed or
rolled back explicitly.
---
 src/transaction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index d104fea..d636e0c 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -870,6 +870,14 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
         assert(is_streaming() == false);
         break;
     case s_must_abort:
+        if (bf_aborted_when_prepared())
+        {
+            // Prepared XA transaction must not be rolled back
+            // implicitly.
+            after_command_must_abort(lock);
+            break;
+        }
+        WSREP_FALLTHROUGH;
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-- 
2.43.0


From 1a39f474dbdbc38a96c8589568b702755fdccc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 22/30] fix: detach of prepared XA transaction must not lose it
 after BF abort

If the transaction was BF aborted just before xa_detach(), it was dropped
without converting it to streaming applier, and the session was left
behind in the map of streaming clients.
---
 src/transaction.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index d636e0c..1752bc8 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1259,16 +1259,26 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 void wsrep::transaction::xa_detach()
 {
     debug_log_state("xa_detach enter");
+    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     assert(state() == s_prepared ||
-           client_state_.state() == wsrep::client_state::s_quitting);
+           client_state_.state() == wsrep::client_state::s_quitting ||
+           state() == s_must_abort);
+    if (state() == s_must_abort && bf_aborted_when_prepared())
+    {
+        // BF aborted before detach, the transaction must remain prepared.
+        after_command_must_abort(lock);
+        debug_log_state("xa_detach leave");
+        return;
+    }
     if (state() == s_prepared)
     {
+        lock.unlock();
         wsrep::server_state& server_state(client_state_.server_state());
         server_state.convert_streaming_client_to_applier(&client_state_);
         client_service_.store_globals();
         client_service_.cleanup_transaction();
+        lock.lock();
     }
-    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     streaming_context_.cleanup();
     state(lock, s_aborting);
     state(lock, s_aborted);
-- 
2.43.0


From aae8688915e15c84f420c057cc9b08cc121316b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 23/30] fix: failed commit by xid in XA replay leaves two
 owners

After xa_replay_commit() has handed the transaction over to a streaming
applier, the session must not keep it as prepared if the commit by xid
fails: the retried commit would commit the rolled back local transaction
and leave the streaming applier behind.
---
 src/transaction.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 1752bc8..44b434c 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1345,9 +1345,12 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     default:
         log_warning() << "Failed to commit by xid during replay";
         // Commit by xid failed, return a commit
-        // error and let the client retry
-        state(lock, s_preparing);
-        state(lock, s_prepared);
+        // error and let the client retry. The transaction remains
+        // prepared in the streaming applier, this instance is over.
+        state(lock, s_aborted);
+        streaming_context_.cleanup();
+        provider().release(ws_handle_);
+        cleanup();
         client_state_.override_error(wsrep::e_error_during_commit, status);
     }
 
-- 
2.43.0


From 4116dabcdb290104bba7cece615be95a06887f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 24/30] fix: report success for XA transaction committed in
 replay

---
 src/transaction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 44b434c..0577658 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1336,6 +1336,8 @@ int wsrep::transaction::xa_replay_commit(wsrep::unique_lock<wsrep::mutex>& lock)
     switch (status)
     {
     case wsrep::provider::success:
+        // The commit may have been interrupted with error.
+        client_state_.reset_error();
         state(lock, s_committed);
         streaming_context_.cleanup();
         provider().release(ws_handle_);
@@ -1982,7 +1984,10 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_replay);
             }
-            client_state_.override_error(wsrep::e_deadlock_error);
+            else
+            {
+                client_state_.override_error(wsrep::e_deadlock_error);
+            }
         }
         else
         {
-- 
2.43.0


From e6e2337154dccdcc2bff08b705fd85a484915cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 25/30] fix: release provider handle after commit by xid

---
 src/transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 0577658..27401ea 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1235,6 +1235,7 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
             state(lock, s_certifying);
             state(lock, s_committing);
             state(lock, s_committed);
+            provider().release(ws_handle_);
         }
         else
         {
-- 
2.43.0


From 56e0ac0ba108587a505e7e1ac77ce8c966423b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 26/30] fix: error of failed XA commit must not be reported for
 later commands

The error was left in the session after the result had been sent, so that
a successful retry of the commit appeared as failed.
---
 src/client_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..fb6a9f2 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -217,7 +217,12 @@ void wsrep::client_state::after_command_after_result()
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+    // The result has been sent, the error must not be carried over to the
+    // next command. This concerns also a failed commit of XA transaction,
+    // which remains prepared and may be retried.
+    if (not keep_command_error_ &&
+        (transaction_.active() == false ||
+         transaction_.state() == wsrep::transaction::s_prepared))
     {
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
-- 
2.43.0


From 51d26039e08f5069dd2f989643646da6616e216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 27/30] fix: wake up view handler when streaming client becomes
 streaming applier

---
 src/server_state.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 4b4ce50..aeaea42 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1185,6 +1185,9 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        // The view handler may wait for the client to be gone, see
+        // close_orphaned_sr_transactions()
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From c05e72e4aaeba8d01389b2ad964895d6537e8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 28/30] fix: abort the transaction if appending keys of
 fragments for commit fails

---
 src/transaction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 27401ea..0a579dc 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1859,9 +1859,15 @@ int wsrep::transaction::certify_commit(
 
     if (is_streaming())
     {
-        if (!is_xa())
+        if (!is_xa() && append_sr_keys_for_commit())
         {
-            append_sr_keys_for_commit();
+            lock.lock();
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
+            client_state_.override_error(wsrep::e_append_fragment_error);
+            return 1;
         }
         pa_unsafe(true);
     }
-- 
2.43.0


From 977f11451040190d2a0a50944c6684237fa7cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 29/30] fix: reset error left over from previous connection
 when a session is opened

---
 src/client_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index fb6a9f2..7dea848 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -49,6 +49,10 @@ void wsrep::client_state::open(wsrep::client_id id)
     rollbacker_active_ = false;
     sync_wait_gtid_ = wsrep::gtid::undefined();
     last_written_gtid_ = wsrep::gtid::undefined();
+    // Error left behind when the previous connection was closed
+    // with open transaction.
+    current_error_ = wsrep::e_success;
+    current_error_status_ = wsrep::provider::success;
     state(lock, s_idle);
     id_ = id;
     debug_log_state("open: leave");
-- 
2.43.0


From 46fbb3a46ced72397d00a8e6c772b1e38db97ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 30/30] fix: apply middle fragments which carry implicit
 dependencies

---
 src/server_state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index aeaea42..f1e116a 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -361,7 +361,8 @@ static int apply_write_set(wsrep::server_state& server_state,
                              ws_meta,
                              data);
     }
-    else if (ws_meta.flags() == 0 || ws_meta.flags() == wsrep::provider::flag::pa_unsafe ||
+    else if ((ws_meta.flags() & ~(wsrep::provider::flag::pa_unsafe |
+                                  wsrep::provider::flag::implicit_deps)) == 0 ||
              wsrep::prepares_transaction(ws_meta.flags()))
     {
         wsrep::high_priority_service* sa(
-- 
2.43.0

