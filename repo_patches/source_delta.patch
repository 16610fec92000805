From 751ca9f601cc69fa2d4f75ae52f6531fd1bea19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:50 +0000
Subject: [PATCH 01/13] fix: keep a BF abort that hits the unlocked parts of
 certification

certify_fragment() and certify_commit() release the client mutex while the
transaction is certifying. If the transaction was BF aborted meanwhile and
the operation then failed, the state was changed from must_abort to
must_abort, which is not an allowed transition; with an empty fragment the
state was even changed back to executing, losing the BF abort.
---
 src/transaction.cpp | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..8c5ab70 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1521,7 +1521,10 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         return 1;
     }
 
@@ -1530,7 +1533,10 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1540,6 +1546,11 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
@@ -1548,7 +1559,10 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1796,7 +1810,10 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
             return 1;
         }
     }
@@ -1879,11 +1896,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1929,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1971,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From ad9dde78de5a0c35bb88e59b7586623bee36457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:50 +0000
Subject: [PATCH 02/13] fix: set client error when pending rollback events
 cannot be replicated

certify_fragment() and certify_commit() failed without setting the client
error, so the caller of the hook was told about a failure without a reason
and the assertion in before_prepare() fired.
---
 src/transaction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 8c5ab70..c46a5b5 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1525,6 +1525,7 @@ int wsrep::transaction::certify_fragment(
         {
             state(lock, s_must_abort);
         }
+        client_state_.override_error(wsrep::e_error_during_commit, status);
         return 1;
     }
 
@@ -1814,6 +1815,7 @@ int wsrep::transaction::certify_commit(
             {
                 state(lock, s_must_abort);
             }
+            client_state_.override_error(wsrep::e_error_during_commit, status);
             return 1;
         }
     }
-- 
2.43.0


From bac9dd49ef557634b0f82b355cd3346bdb272016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:43 +0000
Subject: [PATCH 03/13] fix: abort with an error when streaming byte accounting
 is broken

---
 src/transaction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index c46a5b5..e533a8c 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1454,6 +1454,11 @@ int wsrep::transaction::streaming_step(wsrep::unique_lock<wsrep::mutex>& lock,
                              << " less than bytes certified "
                              << streaming_context_.log_position()
                              << ", aborting streaming transaction";
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
+        client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
     int ret(0);
-- 
2.43.0


From c29df6d36a33c4158cc838dabcea48884a4e4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:43 +0000
Subject: [PATCH 04/13] fix: abort the transaction when streaming is not
 allowed at prepare

---
 src/transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index e533a8c..a23aef0 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -336,6 +336,10 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
             }
+            else if (ret && state() == s_executing)
+            {
+                state(lock, s_must_abort);
+            }
         }
 
         if (ret == 0)
-- 
2.43.0


From 73de632a77ff3bb65f103e9c311386925c37a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:43 +0000
Subject: [PATCH 05/13] fix: clear the client error after a result phase XA
 replay

---
 src/client_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..d20b112 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -217,7 +217,7 @@ void wsrep::client_state::after_command_after_result()
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+    if (transaction_.active() == false && not keep_command_error_)
     {
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
-- 
2.43.0


From 84b0040a1684aba163c347019b22a43a1eb305e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:10 +0000
Subject: [PATCH 06/13] fix: do not replay an XA transaction rolled back before
 prepare

---
 src/transaction.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index a23aef0..89fb391 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -489,7 +489,8 @@ int wsrep::transaction::before_commit(const wsrep::provider::seq_cb* seq_cb)
         {
             assert(state() == s_must_abort);
             if (certified() ||
-                (is_xa() && is_streaming()))
+                (is_xa() && is_streaming() &&
+                 !streaming_context_.rolled_back()))
             {
                 state(lock, s_must_replay);
             }
@@ -950,7 +951,9 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    // An XA transaction which was BF aborted before it was prepared
+    // has been rolled back already and is not replayed.
+    if (is_xa() && is_streaming() && !streaming_context_.rolled_back())
     {
         state(lock, s_must_replay);
     }
-- 
2.43.0


From 841405a0afdd1ef190d26c7448b32d176170f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 07/13] fix: do not log a fragment as applied after its
 rollback failed

---
 src/server_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..ed910fa 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -120,8 +120,8 @@ static int apply_fragment(wsrep::server_state& server_state,
             }
             else
             {
-                ret = streaming_applier->log_dummy_write_set(ws_handle,
-                                                             ws_meta, err);
+                ret = ret || streaming_applier->log_dummy_write_set(
+                    ws_handle, ws_meta, err);
             }
         }
     }
-- 
2.43.0


From d0dd73b407d1e5ff3a5d79458b30e483bbdaa89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 08/13] fix: stop applying when the streaming applier fails to
 start

---
 src/server_state.cpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index ed910fa..05e50f6 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -357,13 +357,13 @@ static int apply_write_set(wsrep::server_state& server_state,
                 high_priority_service));
         server_state.start_streaming_applier(
             ws_meta.server_id(), ws_meta.transaction_id(), sa);
-        sa->start_transaction(ws_handle, ws_meta);
-        ret = apply_fragment(server_state,
-                             high_priority_service,
-                             sa,
-                             ws_handle,
-                             ws_meta,
-                             data);
+        ret = sa->start_transaction(ws_handle, ws_meta) ||
+            apply_fragment(server_state,
+                           high_priority_service,
+                           sa,
+                           ws_handle,
+                           ws_meta,
+                           data);
     }
     else if (ws_meta.flags() == 0 || ws_meta.flags() == wsrep::provider::flag::pa_unsafe ||
              wsrep::prepares_transaction(ws_meta.flags()))
@@ -388,13 +388,13 @@ static int apply_write_set(wsrep::server_state& server_state,
         }
         else
         {
-            sa->next_fragment(ws_meta);
-            ret = apply_fragment(server_state,
-                                 high_priority_service,
-                                 sa,
-                                 ws_handle,
-                                 ws_meta,
-                                 data);
+            ret = sa->next_fragment(ws_meta) ||
+                apply_fragment(server_state,
+                               high_priority_service,
+                               sa,
+                               ws_handle,
+                               ws_meta,
+                               data);
         }
     }
     else if (wsrep::commits_transaction(ws_meta.flags()))
@@ -431,13 +431,13 @@ static int apply_write_set(wsrep::server_state& server_state,
             else
             {
                 // Commit fragment consumes sa
-                sa->next_fragment(ws_meta);
-                ret = commit_fragment(server_state,
-                                      high_priority_service,
-                                      sa,
-                                      ws_handle,
-                                      ws_meta,
-                                      data);
+                ret = sa->next_fragment(ws_meta) ||
+                    commit_fragment(server_state,
+                                    high_priority_service,
+                                    sa,
+                                    ws_handle,
+                                    ws_meta,
+                                    data);
             }
         }
     }
-- 
2.43.0


From 22270ef3cf64300f4959c8b7b4a1d2b6ce6837be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 09/13] fix: release commit order if adopting a transaction for
 rollback fails

---
 src/server_state.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 05e50f6..91736b6 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -246,26 +246,29 @@ static int rollback_fragment(wsrep::server_state& server_state,
         discard_streaming_applier(server_state, high_priority_service,
                                   streaming_applier, ws_meta);
 
-        if (adopt_error == 0)
+        if (remove_fragments && adopt_error == 0)
         {
-            if (remove_fragments)
+            ret = high_priority_service.remove_fragments(ws_meta);
+            ret = ret || high_priority_service.commit(ws_handle, ws_meta);
+            if (ret)
+            {
+                high_priority_service.rollback(ws_handle, ws_meta);
+            }
+            high_priority_service.after_apply();
+        }
+        else
+        {
+            if (adopt_error)
             {
-                ret = high_priority_service.remove_fragments(ws_meta);
-                ret = ret || high_priority_service.commit(ws_handle, ws_meta);
-                if (ret)
-                {
-                    high_priority_service.rollback(ws_handle, ws_meta);
-                }
                 high_priority_service.after_apply();
             }
-            else
+            // The write set must release its place in commit order
+            // even if there are no fragments which could be removed.
+            if (ws_meta.ordered())
             {
-                if (ws_meta.ordered())
-                {
-                    wsrep::mutable_buffer no_error;
-                    ret = high_priority_service.log_dummy_write_set(
-                        ws_handle, ws_meta, no_error);
-                }
+                wsrep::mutable_buffer no_error;
+                ret = high_priority_service.log_dummy_write_set(
+                    ws_handle, ws_meta, no_error);
             }
         }
     }
-- 
2.43.0


From 6419c66bebc48f6e0abba05c793ba71664043ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 10/13] fix: wake up view handler when a streaming client is
 converted to applier

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 91736b6..98dc920 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1185,6 +1185,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From 42ee23f5eb57bba9454d1a41019322f1ff794b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 11/13] fix: wake up waiting pause() callers when pausing the
 provider fails

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 98dc920..49076e2 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -579,6 +579,7 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From d8bb19584d3556396a91a64fe99bc232b1e19a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 12/13] fix: do not resync after failed pause if the server was
 not desynced

---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 49076e2..bd23bd8 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -625,7 +625,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From 44c8f3b063e9e14d3e8a4aa5c7a344f39e0b7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 13/13] fix: restore client globals when converting to
 streaming applier fails

---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index bd23bd8..643f5ab 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1203,6 +1203,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
             log_adopt_error(client_state->transaction());
             streaming_applier->after_apply();
             server_service_.release_high_priority_service(streaming_applier);
+            client_state->client_service().store_globals();
             return;
         }
         if (streaming_appliers_.insert(
-- 
2.43.0

