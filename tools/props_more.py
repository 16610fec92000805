# exec'd by props.py
APPLY_Q = ("every kind of replicated write set (whole transactions, first / middle / prepare / commit / rollback fragments, "
           "TOI, NBO begin and end, with and without the modifier flags), every result and error description any DBMS "
           "callback may give, and with or without a streaming applier for the transaction")
APPLY_T = ("the tests deliver a handful of write sets to a mock applier whose callbacks almost always succeed; the failure "
           "combinations (rollback, adopt, fragment removal, error voting) are never exercised")
APPLY_TECH = "interprocedural path-sensitive dataflow over clang CFGs: protocol automaton over applier callbacks"

prop("C11", "Streaming appliers live from first fragment to commit or rollback",
     "For a streaming transaction of another node one streaming applier is created with its first fragment, is found by the "
     "origin and transaction id of later fragments, applies every fragment in its own execution context, has each applied "
     "fragment stored, and on the commit or rollback fragment (or a failure to apply) is rolled back or committed, "
     "deregistered and released exactly once; it is never used after that and never left behind.",
     HIST, APPLY_Q, APPLY_T, [S], [("fragment handlers", S + ":apply_write_set"),
                                   ("streaming applier map", S + ":start_streaming_applier")], technique=APPLY_TECH)
prop("C12", "Every delivered write set closes its place in the total order once",
     "When a replicated write set has been handled successfully, its changes were applied at most once and its place in the "
     "total order was closed exactly once, by committing it, storing it as a fragment or logging a dummy in its place, under "
     "the handle and meta data that were delivered, and nothing was applied under it afterwards.",
     HIST, APPLY_Q, APPLY_T, [S], [("on_apply", S + ":apply_write_set")], technique=APPLY_TECH)
prop("C13", "A failed apply is rolled back and voted on, never silently committed",
     "A write set that failed to apply is rolled back before its place in the order is closed, its error description is "
     "passed on for the cluster to vote on, and no fragment or change of it is stored. If any step of applying, committing or "
     "rolling back fails, or applying failed without a description to vote on, the failure is reported and later steps are "
     "not carried out.",
     HIST, APPLY_Q, APPLY_T, [S], [("error resolution", S + ":resolve_return_error")], technique=APPLY_TECH)
prop("C14", "Replicated TOI and NBO events execute inside the commit order",
     "A replicated TOI operation or NBO start is executed once, after the commit order critical section was entered and before "
     "it is left; the critical section is left exactly once on every path, carrying the error of a failed execution, and the "
     "result agrees with the vote. An NBO end only passes through the critical section.",
     HIST, APPLY_Q, APPLY_T, [S], [("apply_toi", S + ":apply_toi")], technique=APPLY_TECH)

ISO_Q = ("every order of the TOI, NBO and RSU calls a session may make, every provider result for entering (ordered or not, "
         "transient or not) and leaving, every outcome of desync, pause, resume and resync, and every interruption")
ISO_T = ("the tests enter and leave each mode a few times with a mock that mostly succeeds; retries, ordered failures and "
         "half completed sequences are sampled once if at all")
ISO_TECH = "interprocedural path-sensitive typestate dataflow over clang CFGs"

prop("C15", "Total order isolation is entered and left in pairs by a session",
     "A session's TOI begin succeeds only when the provider has put it into total order isolation; every begin that the "
     "provider ordered is left exactly once with the same meta data and the operation's error, also when the begin failed "
     "after being ordered. A failed begin sets a client error (deadlock for certification failure), only transient failures are "
     "retried and only while the session is not interrupted. Outside of the operation the session is back in its previous mode "
     "without stale TOI data, and the session lock is never held across provider isolation calls.",
     HIST, ISO_Q, ISO_T, [C], [("enter_toi_local, leave_toi_local, enter_toi_mode, leave_toi_mode", C)], technique=ISO_TECH)
prop("C16", "Non-blocking operations run as two separate ordered phases",
     "An NBO's first phase replicates a start event and keeps the session inside total order isolation until it is ended; its "
     "position identifies the operation, is carried unchanged into the second phase, and is forgotten when the second phase "
     "ends or fails to begin. Each phase enters and leaves isolation once, errors of either phase are reported as client "
     "errors, and the session returns to local mode afterwards.",
     HIST, ISO_Q, ISO_T, [C], [("begin/end_nbo_phase_one/two, enter_nbo_mode", C)], technique=ISO_TECH)
prop("C17", "Rolling schema upgrade leaves the node neither desynced nor paused",
     "An RSU begins with the node desynced, then waits for committing transactions, then pauses the provider, and succeeds only "
     "if all of these did; if any step fails the earlier ones are undone before it returns. Ending the RSU resumes and then "
     "resyncs, reports whether that worked, and puts the session back to local mode. The session lock is never held while the "
     "server is paused or desynced on its behalf.",
     HIST, ISO_Q, ISO_T, [C], [("begin_rsu, end_rsu", C)], technique=ISO_TECH)

SRV_TECH = "interprocedural path-sensitive typestate dataflow over clang CFGs"
prop("C18", "Pause and desync of the provider are balanced",
     "The provider is paused by at most one caller at a time, later callers wait until it is resumed, and a resume or resync "
     "reaches the provider only if a matching pause or desync did. pause() reports a position only if the provider is paused; "
     "desync_and_pause() that fails leaves the node neither paused nor desynced by it; resume_and_resync() undoes exactly what "
     "desync_and_pause() achieved. Failures are reported, and the server mutex is not held while the provider is pausing.",
     HIST, "every order of desync, resync, pause, resume, desync_and_pause and resume_and_resync by two threads, every provider "
     "outcome of each, and another thread's call at every re-acquisition of the server mutex",
     "the tests call each operation once with a provider that succeeds; no failing pause or second pauser is tried",
     [S], [("pause, resume, desync, resync", S)], technique=SRV_TECH)

SM_Q = ("every sequence of provider events (connect, views, sync, SST request and outcome, donor request, final view) and "
        "server calls (initialized, disconnect) in both initialization orders, every outcome of each provider and service "
        "call, and initialization or disconnect by another thread at every point where the server mutex is re-acquired")
SM_T = ("the tests walk about a dozen fixed scenarios; they do not interleave disconnect or initialization, and most "
        "failure outcomes are never injected")
prop("C19", "The server state follows the documented diagram and announces each change",
     "Whatever events arrive, the server state only moves along the documented transitions, under the server mutex, and an "
     "event that no longer fits a disconnecting server is ignored rather than reviving it. Every change that is made, and no "
     "other, is announced to the DBMS with the old and new state in the order in which the changes happen.",
     HIST, SM_Q, SM_T, [S], [("server_state::state()", S)], technique=SRV_TECH)
prop("C20", "A node is joined or synced only with complete state",
     "A server becomes joined only after it has been initialized and only when it holds the state the cluster had when it "
     "connected: a successful state transfer whose recovered position, or a primary view whose position, is at or past the "
     "connected position; and it does become joined then. A failed transfer never makes it joined, and a synced event takes a "
     "joined server to synced.",
     HIST, SM_Q, SM_T, [S], [("on_primary_view, sst_received, on_sync", S)], technique=SRV_TECH)
prop("C21", "State transfer hand-shake tells the provider the truth",
     "A joiner requests a state transfer in joiner state; when the transfer has been received it waits for initialization, "
     "recovers position, view and streaming transactions, refuses a view that contradicts the position, and tells the provider "
     "exactly once: the recovered position on success, an undefined position and an error on any failure. A donor starts the "
     "transfer in donor state, leaves that state when it fails to start or has been sent, and only then tells the provider.",
     HIST, SM_Q, SM_T, [S], [("prepare_for_sst, sst_received, start_sst, sst_sent", S)], technique=SRV_TECH)
prop("C22", "Views, connect and disconnect are handled completely and in order",
     "Connecting records the node's own id and position from a valid view only. Each delivered view becomes the current view and "
     "is logged once, after it has been handled. A primary view on an initialized server bootstraps if asked to, recovers "
     "streaming transactions once, then closes the orphaned ones by comparing with the last primary view. A non-primary view "
     "takes the server back to connected. disconnect() reaches the provider once; the final view disconnects and clears the id.",
     HIST, SM_Q, SM_T, [S], [("on_connect, on_view, connect, disconnect", S)], technique=SRV_TECH)
prop("C23", "No wake-up is lost",
     "A thread that waits inside the library re-tests what it waits for whenever it is woken. Whatever ends such a wait (the "
     "provider resumed or not paused after all, a server state reached, a waiter done or interrupted, a streaming client gone, "
     "a rollback handed back or finished) is followed by a notification of all waiters before the call returns, and the server "
     "does not leave a state before the threads waiting for it have seen it. No loop spins on shared state which neither it nor "
     "anyone it waits for changes.",
     HIST, "every condition wait of the library, every write of what it waits for in any function and on any path, every "
     "state a thread may wait for and every sequence of server events",
     "a lost wake-up is a hang that needs a waiter at a particular moment; the tests are single threaded",
     [S, C], [("pause, resume, wait_until_state, state", S), ("sync_rollback_complete", C), ("streaming_rollback", T)],
     technique="dataflow over clang CFGs and call graph (write to notification), typestate of waiting threads")

prop("C25", "Streaming transactions outlive neither their originator nor the connection",
     "When a primary view arrives, every open streaming transaction whose originating server is not in it (all of them when two "
     "consecutive primary views have the same members) is rolled back exactly once in its own applier's context, its fragments "
     "are removed and the removal committed, and its applier is deregistered and then released; transactions of remaining "
     "members and prepared transactions are left alone. A local open one is aborted in total order and the handler waits until "
     "it is gone. On disconnect all appliers are closed and their fragments kept. A client that is converted hands over to a "
     "registered applier or the applier is released. Lookups and removals concern only the transaction asked for.",
     HIST, "every view in every reachable server state, every membership, open or prepared transactions, every failure to adopt "
     "one, every state in which a client is converted",
     "a leaked or doubly closed transaction needs a view change with open streaming transactions; the tests have a handful",
     [S], [("close_orphaned_sr_transactions, close_transactions_at_disconnect", S),
           ("convert_streaming_client_to_applier, start/stop/find_streaming_applier", S)],
     technique="typestate dataflow of streaming appliers over the CFGs of the view handlers")

prop("C27", "Rollback events that could not be sent are sent before anything new",
     "When the rollback fragment of a streaming transaction cannot be replicated, its event stays queued until the provider takes "
     "it. Queued events are sent in the order they were queued; sending stops at the first failure, reports it and keeps that "
     "event and all later ones. They are sent when the server becomes synced and before every certification of a fragment or a "
     "commit, and no transaction is certified while one of them cannot be sent, except the commit of a prepared XA transaction.",
     HIST, "every path to a certification in every session history, every queue content up to three events and every outcome of "
     "sending them",
     "an event is queued only when replication fails in the middle of a rollback; an unsent one lets a dead transaction block "
     "others cluster-wide, which no unit test shows",
     [S, T], [("queue_rollback_event, send_pending_rollback_events, on_sync", S), ("certify_fragment, certify_commit", T)],
     technique="typestate dataflow over the CFGs (flush before certify; queue contents)")

prop("C30", "No deadlock or data race through the library's own mutexes",
     "The session mutex and the server mutex are never locked twice by one thread, never released or waited with when not owned, "
     "never acquired in opposite orders, and never held while the library calls something that waits for the cluster, for other "
     "threads, or that calls back into the library (certification, commit order, TOI, pause, connecting, SST scripts, replay, "
     "applying, committing). What several threads use - server state, pause, desync and init bookkeeping, streaming registries, "
     "the rollback queue, session state and mode, transaction state, BF abort data - is changed only with its mutex held and "
     "read by other threads only with it held.",
     HIST, "every function of the library that can be reached from the session and server interfaces, in every combination of "
     "held mutexes and thread role, on every path",
     "a race or a deadlock needs two threads at one moment; the tests are single threaded",
     [S, C, T], [("every use of mutex_ and of the fields it protects", S), ("session lock", C), ("transaction state", T)],
     technique="must-lockset dataflow over clang CFGs with calling contexts, lock-order graph, guard inference")

prop("C31", "Requests reach the provider as asked and its answers reach the DBMS",
     "What the DBMS asks of the provider through the library is asked exactly once and unchanged: a causal read or a wait for a "
     "position with the given timeout and position, keys, data, a read view, the start of a transaction, an encryption key "
     "(kept for a provider loaded later if none is). The call succeeds exactly when the provider did. A successful sync wait "
     "records the position waited for until the command ends; a failed one records none and leaves the client error not "
     "supported or timeout. The session's last written position is that of its last ordered transaction.",
     HIST, "every such interface function, every status the provider can answer with, every session history for the last "
     "written position",
     "a causal read that is not one, or a key that is not replicated, gives stale reads or missed conflicts elsewhere in the "
     "cluster, and only for some provider answers",
     [S, C, T], [("causal_read, wait_for_gtid, set_encryption_key", S), ("sync_wait, append_keys, update_last_written_gtid", C),
                 ("append_key, append_data, assign_read_view, cleanup", T)],
     technique="path-sensitive dataflow of arguments and results over clang CFGs")

prop("C32", "Write sets carry the flags and keys of their place in the transaction",
     "Of the write sets a transaction replicates exactly the first is marked as start of the transaction, exactly the commit "
     "write set as commit, exactly the XA prepare fragment as prepare and none as rollback. Streaming commit and prepare write "
     "sets are marked unsafe for parallel applying, others are not; implicit dependencies are marked iff they are set. A "
     "fragment is stored with the flags it is replicated with, and the last write set of a streaming transaction carries again, "
     "as shared keys, the certified keys of all its fragments.",
     HIST, "every sequence of statements, fragments, commit, prepare and rollback, every provider status",
     "wrong flags make a remote applier start, commit or parallelise a transaction at the wrong place, in another process than "
     "the tests look at and only for particular fragment sequences",
     [T], [("certify_fragment, certify_commit, append_sr_keys_for_commit", T)])

prop("C33", "Appliers, replayers and recovered transactions work on what they were given",
     "A transaction started for a delivered write set, adopted from a streaming applier, cloned for replay or restored from a "
     "prepared XID is the transaction given: same id, origin, handle, meta data, flags, XID, fragments and apply error; ordering "
     "information replaces handle and meta data except while replaying. A recovered XA transaction is terminated by one write "
     "set of its origin and id with commit or rollback, ends only if the provider accepts, else a commit error. "
     "Everything a transaction asks of provider and fragment storage names its own handle, meta data and XID. A streaming "
     "applier keeps no place in the total order between its fragments and replicates nothing when it is BF aborted.",
     HIST, "every such call with arbitrary objects, every provider status; every session history for the requests",
     "one field lost in such a hand-over shows only in a replay, a recovery or on another node",
     [T, C], [("start_transaction, adopt, clone_for_replay, prepare_for_ordering, restore_to_prepared_state, "
               "commit_or_rollback_by_xid, certify_fragment, release_commit_order", T)],
     technique="path-sensitive dataflow, field-wise value identity of every leaf between source and destination")

prop("C34", "Nothing of a finished transaction leaks into the next one",
     "When a transaction is over - committed, rolled back, replayed, detached - the session holds none of its id, handle, meta "
     "data, flags, implicit dependencies, certification result, keys, fragments, XID, apply error, BF abort marks or immutability.",
     HIST, "every session history up to the end of a transaction, on every path",
     "a mark left over changes the behaviour of a later, unrelated transaction of the session only in combination with the right "
     "history",
     [T, "src/streaming_context.cpp"], [("cleanup", T), ("cleanup", "src/streaming_context.cpp")])

prop("C40", "The wsrep API adapter translates every request and answer faithfully",
     "Every call of the provider interface is translated to the wsrep API of the loaded provider with the same write set handle, "
     "meta data, keys, buffers and flags, and every status and flag coming back is mapped to its counterpart.",
     ["inputs"], "every status, flag combination, key and buffer", "the tests use a mock provider and never load an adapter",
     ["src/wsrep_provider_v26.cpp"], [("map_return_value, map_key_type, map_flags_*", "src/wsrep_provider_v26.cpp")],
     na="The adapter and the *_service_v1.cpp files include wsrep_api.h from the wsrep-API submodule, which is empty in this "
     "tree and cannot be fetched: these files are neither built nor can they be parsed, so there is no typed program to analyse "
     "(types, enum values and flag constants on one side of every translation are missing).")
prop("C41", "Waiting operations end",
     "Every wait of the library (for a server state, a replay, a rollback, a paused provider, a streaming client) ends once the "
     "other parties make progress, and a sync wait ends within its timeout.",
     ["schedules"], "every fair schedule of all threads, DBMS and provider", "termination is not observable in a finite test",
     [S, C], [("wait loops", S)],
     na="Termination depends on the progress of provider, DBMS threads and scheduler, which the source of this library does "
     "not bound. What is decidable from the source - no lost wake-up, no spinning, no lock cycle - is claimed as C23 and C30.")
prop("C42", "Text and option parsing are inverse to printing for every input",
     "GTIDs, ids and provider option strings that are printed and scanned again give the same value; malformed ones are rejected.",
     ["inputs"], "every string", "strings are unbounded", ["src/gtid.cpp", "src/id.cpp", "src/config_service_v1.cpp",
                                                         "src/provider_options.cpp"],
     [("scan_from_c_str, operator>>, operator<<", "src/gtid.cpp")],
     na="Equality of a round trip over all strings is a relation between unbounded run-time byte sequences (uuid text forms, "
     "stream formatting); no dataflow abstraction in reach decides it, and sampling it would be a run-time test.")
