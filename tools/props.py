"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]

HIST = ["histories", "schedules", "fault_sequences", "configurations"]
TYPESTATE = "interprocedural path-sensitive typestate dataflow over clang CFGs"
SESS_Q = ("every sequence of hook calls the integration protocol allows for a session, every result any provider or DBMS "
          "callback may return, and a BF abort by another thread at every point where the session gives up its lock, in "
          "both rollback modes, with and without streaming and XA")
SESS_T = ("the tests replay a few dozen scripted histories with a mock provider, mostly single-threaded; they cannot place a "
          "BF abort in every unlocked window or combine it with every failing callback")
TRUST = ("Covers all paths of the analysed source under the documented hook protocol; values of data are abstracted, loops "
         "are joined, the provider and DBMS callbacks are taken at their interface contracts (DESIGN.md lists them), two "
         "threads (owner and BF aborter / rollbacker) per session.")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=TYPESTATE, note=TRUST, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


T = "src/transaction.cpp"
C = "src/client_state.cpp"
S = "src/server_state.cpp"

prop("C01", "Transactions only move along the documented lifecycle",
     "A replicated transaction only ever moves between lifecycle states along the documented transition diagram (for example "
     "it never goes from aborted to committed, from committed to anything else, or to committed without having been "
     "committing or replaying). This holds for every order of hook calls and every moment at which another thread BF aborts "
     "the transaction.",
     HIST, SESS_Q, SESS_T + "; the diagram is only asserted at run time for the transitions a test happens to take.",
     [T], [("state setter and all its callers", T), ("transition table", T + ":state()")])
prop("C02", "Nothing commits without certification, order and no pending abort",
     "The commit hook reports success only if the write set has been certified successfully, has a position in the total "
     "order, has entered the commit order critical section, and no BF abort of the transaction is pending; from then on the "
     "transaction can no longer be BF aborted. A transaction ends as committed only through that gate or through a "
     "successful replay.",
     HIST, SESS_Q, SESS_T, [T, C], [("commit and prepare hooks", T + ":before_commit"), ("certification", T + ":certify_commit")])
prop("C03", "The commit order critical section is entered and left exactly once",
     "A transaction that was given a position in the total order passes through the commit order critical section exactly "
     "once, whether it commits, rolls back after failed certification or is replayed: it is never left without being entered, "
     "never entered twice, never still held when the transaction ends or when the provider handle is released, and never "
     "entered by a local transaction that was not ordered.",
     HIST, SESS_Q, SESS_T, [T], [("before_commit / ordered_commit / release_commit_order", T)])
prop("C04", "BF abort outcome agrees with provider, victim state and rollback owner",
     "A BF abort reports success only if the provider aborted the transaction, and then the victim is marked for abort (or, "
     "when its session is idle under synchronous rollback, already handed to exactly one background rollback); a refused BF "
     "abort changes nothing. Transactions which are past the point of no return or already finishing are never handed to the "
     "provider for BF abort.",
     HIST, SESS_Q, SESS_T, [T, C], [("BF abort", T + ":bf_abort"), ("total order BF abort", T + ":total_order_bf_abort")])
prop("C05", "BF aborted certified transactions are replayed, all others rolled back",
     "A transaction that is BF aborted after its write set passed (or may still pass) certification is replayed and never "
     "simply rolled back; one whose write set did not certify is never replayed. Every replay is announced before it starts "
     "and its completion is signalled exactly once, a successful replay ends committed, a failed one does not, and no "
     "statement or command ends with a replay still pending.",
     HIST, SESS_Q, SESS_T, [T, C], [("replay decision", T + ":before_commit, after_prepare, certify_commit, before_rollback"),
                                   ("replay", T + ":replay, xa_replay, xa_replay_commit")])
prop("C06", "A failing hook always leaves a reason, and the client is told",
     "Whenever a row, prepare or commit hook fails, either a client error is set or the transaction is waiting for replay, "
     "and the transaction is not left in a state from which it could still commit; when such a hook succeeds the transaction "
     "is in the matching state. A BF aborted or failed transaction never ends rolled back with the client seeing success, and "
     "the statement hook reports failure exactly when a deadlock error is pending.",
     HIST, SESS_Q, SESS_T, [T, C], [("error paths of certification and streaming", T)])
prop("C07", "Client errors live until they have been delivered, and no longer",
     "An error raised for a command stays set until its result has been sent to the client, is then cleared if no transaction "
     "is open and the DBMS did not ask to keep it for the next command, and never leaks into a later command; it is never "
     "overwritten with success in between.",
     HIST, SESS_Q, SESS_T, [C], [("error setting and clearing", C + ":override_error, after_command_after_result, before_command")])
prop("C08", "Streaming fragments are stored durably around their certification",
     "Each fragment of a streaming transaction is first stored in fragment storage, then certified, then gets its ordered "
     "position recorded, and only then is the storage transaction committed; if anything fails the storage transaction is "
     "rolled back or committed unordered but never left open, the storage service is returned exactly once, and the hook fails. "
     "Success is reported only for fragments that were both certified and stored, and each certified fragment is accounted to "
     "the transaction.",
     HIST, SESS_Q, SESS_T, [T], [("fragment certification", T + ":certify_fragment"),
                                ("fragment removal scope", T + ":remove_fragments_in_storage_service_scope")])
prop("C09", "A rolled back streaming transaction is rolled back cluster wide, once",
     "When a streaming transaction which has replicated fragments is rolled back locally (and was not aborted in total order), "
     "it is first handed over to an applier and then exactly one rollback fragment is sent; if that fails, a rollback event is "
     "queued instead, and only then. Committed or replayed transactions are never rolled back in the cluster, and two threads "
     "never perform the streaming rollback of one transaction at the same time.",
     HIST, SESS_Q, SESS_T, [T, S], [("streaming rollback", T + ":streaming_rollback"), ("rollback event queue", S)])
prop("C10", "Streaming transactions are registered exactly while they stream",
     "A client session is registered as streaming before its first fragment is certified, is registered at most once, and is "
     "deregistered or converted to an applier exactly once, before its transaction ends. No path deregisters or converts a "
     "client that is not registered, and no transaction ends with a stale registration.",
     HIST, SESS_Q, SESS_T, [T, S], [("registration", S + ":start_streaming_client, stop_streaming_client, "
                                    "convert_streaming_client_to_applier")])
prop("C24", "A session never continues while its transaction is being rolled back",
     "While a background rollbacker owns a session's transaction the session neither starts executing a command nor starts "
     "quitting; when the rollbacker is done it gives the session back under the session lock and wakes up the waiting thread.",
     HIST, SESS_Q, SESS_T, [C], [("ownership hand-over", C + ":before_command, close, sync_rollback_complete")])
prop("C26", "A finished transaction leaves nothing behind for the next one",
     "When a transaction has ended, it is committed or aborted, the DBMS has been asked to clean it up, and all "
     "per-transaction data (write set position, certification and abort marks, flags, keys, fragments and byte counters, apply "
     "errors, XA identifier) is back to its initial value, so the session's next transaction starts clean.",
     HIST, SESS_Q, SESS_T, [T, "include/wsrep/streaming_context.hpp"], [("cleanup", T + ":cleanup")])
prop("C28", "Provider transaction handles are released once and never used after",
     "Every transaction that used the provider releases its provider handle before it ends, does so after its commit order "
     "critical section is over, and does not append to, certify, order or release through the handle again afterwards (a "
     "streaming transaction releases after each fragment and reuses it for the next one).",
     HIST, SESS_Q, SESS_T, [T], [("release calls", T)])
prop("C29", "Session states and modes follow their diagrams under the session lock",
     "A session's state (none, idle, executing, result, quitting) and its mode (local, high priority, TOI, RSU, NBO) only "
     "change along their documented diagrams, and only while the session lock is held.",
     HIST, SESS_Q, SESS_T, [C, "include/wsrep/client_state.hpp"], [("state and mode setters", C)])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if \
    os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None


def main():
    import registry
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda x: x["id"]):
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"],
                                                 mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda x: x["id"]):
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        if p["id"] not in registry.TABLE:
            print("no check yet:", p["id"])
            na.append(dict(property=p["id"], reason="no check built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                           thorough_cmd="python3 check.py %s thorough" % p["id"], technique=p["technique"],
                           level=registry.TABLE[p["id"]][1], level_note=p["note"]))
    m = dict(version=1, setup_cmd="bash tools/build.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks read the source. fix: commits are listed in known_findings.json.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
