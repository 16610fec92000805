"""property id -> (check, level, explanation)"""
import apply
import closing
import content
import isolation
import locking
import passing
import pausing
import rbqueue
import servermachine as sm
import trx
import wakeups

SESSION = ("Interprocedural path-sensitive typestate dataflow over the clang CFGs of the library: every call sequence "
           "the hook protocol allows for one session, every outcome of every provider / service call, and a BF abort "
           "by another thread at every (re)acquisition of the session mutex, closed to a fixpoint over abstract "
           "session states. ")


def c01(ctx):
    ctx.rule("every write of the transaction state is an edge of the documented state diagram")
    trx.run(ctx, [trx.TrxStates()], trx.FULL)
    ctx.floor("transition", 22)


def c02(ctx):
    ctx.rule("before_commit success / committed state requires certified, ordered, commit order entered, not BF aborted")
    trx.run(ctx, [trx.CommitGate()], trx.FULL)
    ctx.floor("before_commit success", 1)


def c03(ctx):
    ctx.rule("commit order is entered once, left once, never abandoned, and never skipped by an ordered transaction")
    trx.run(ctx, [trx.CommitOrder()], trx.FULL)
    ctx.floor("commit_order_enter site", 2)
    ctx.floor("commit_order_leave site", 2)


def c04(ctx):
    ctx.rule("BF abort outcome matches provider outcome, victim state, rollbacker hand-over")
    trx.run(ctx, [trx.BfAbort()], trx.FULL)
    ctx.floor("bf_abort", 10)


def c05(ctx):
    ctx.rule("certified BF victims are replayed, uncertified never; replay announced and signalled once")
    trx.run(ctx, [trx.Replay()], trx.FULL)
    ctx.floor("replay call", 2)


def simple(cls, text, floors, cfg="FULL"):
    def f(ctx):
        ctx.rule(text)
        trx.run(ctx, [getattr(trx, cls)()], getattr(trx, cfg))
        for k, n in floors.items():
            ctx.floor(k, n)
    return f


def c30(ctx):
    ctx.rule("mutexes: no recursion, no cycle, no blocking call under them; shared fields change under their mutex only")
    locking.run(ctx)
    ctx.floor("guarded field", 12)
    ctx.floor("blocking call", 25)
    ctx.floor("lock order", 1)


def c31(ctx):
    ctx.rule("the provider is asked exactly once for exactly what the DBMS asked for; the answer agrees with the provider's")
    passing.run(ctx)
    trx.run(ctx, [trx.LastWritten()], trx.FULL, {trx.LastWritten.LAST: "call"})
    ctx.floor("last written", 1)
    ctx.floor("provider call", 7)
    ctx.floor("outcome", 60)


def c32(ctx):
    ctx.rule("every certified write set carries exactly the flags of its place in the transaction, and a streaming "
             "transaction's last one the keys of all fragments")
    trx.run(ctx, [trx.WriteSets()], [dict(trx.FULL[0], implicit=True)])
    given = ctx.instances.get("keys given", set())
    for w in sorted(ctx.instances.get("keys wanted", ())):
        if w not in given:
            ctx.violation("write set keys", "(wsrep::client_state::%s)" % w.split()[0],
                          "the last write set of a streaming %s never carries the keys of the earlier fragments" %
                          ("XA transaction" if w.endswith("xa") else "transaction"))
    if ctx.instances.get("undecided flags"):
        ctx.broken.append("flags of a write set are not determined: %s" % sorted(ctx.instances["undecided flags"]))
    ctx.floor("write set", 5)
    ctx.floor("keys wanted", 2)
    ctx.floor("stored flags", 2)
    ctx.floor("implicit dependencies", 2)


def c33(ctx):
    ctx.rule("appliers, replayers and recovered transactions work on exactly the transaction they were given, and a "
             "transaction names its own write set to provider and storage")
    content.run(ctx)
    trx.run(ctx, [trx.OwnWriteSet()], trx.FULL[:1])
    ctx.floor("compared", 60)
    ctx.floor("outcome", 6)
    ctx.floor("argument", 14)


def c34(ctx):
    ctx.rule("when a transaction is over its flags, handle, meta data, keys, fragments, errors and marks are all reset")
    trx.run(ctx, [trx.Leftover(ctx.program())], [dict(trx.FULL[0], implicit=True)])
    content.leftover(ctx)
    ctx.floor("leaf", 20)
    ctx.floor("end", 5)


def c26(ctx):
    ctx.rule("per-transaction data is reset when the transaction ends, and cleaned up in the DBMS")
    for g in range(len(trx.Cleanup.GROUPS)):
        trx.run(ctx, [trx.Cleanup(g)], trx.FULL)
    ctx.floor("end", 4)


APPLY = ("Interprocedural path-sensitive dataflow over the clang CFGs of the library from server_state::on_apply(): every "
         "kind of write set, every outcome of every applier callback, checked against a protocol automaton. ")


def applying(rules, text, floors, **kw):
    def f(ctx):
        ctx.rule(text)
        apply.run(ctx, ctx.prop, rules, **kw)
        for k, n in floors.items():
            ctx.floor(k, n)
    return f


ISO = ("Interprocedural path-sensitive typestate dataflow over the clang CFGs of the library: every sequence of TOI, NBO and "
       "RSU calls of a session and every outcome of the provider and service calls, closed to a fixpoint. ")


def iso(rules, text, floors):
    def f(ctx):
        ctx.rule(text)
        isolation.run(ctx, ctx.prop, rules)
        for k, n in floors.items():
            ctx.floor(k, n)
    return f


SERVER = ("Interprocedural path-sensitive typestate dataflow over the clang CFGs of the library: every sequence of calls on a "
          "server_state object, every outcome of the provider and service calls, and another thread's call at every "
          "re-acquisition of the server mutex, closed to a fixpoint. ")


def c18(ctx):
    ctx.rule("pause/resume and desync/resync reach the provider in pairs; results agree with the provider")
    pausing.run(ctx)
    ctx.floor("provider call site", 4)
    ctx.floor("operation outcome", 8)


def machine(rules, text, floors):
    def f(ctx):
        ctx.rule(text)
        sm.run(ctx, rules)
        if sm.DIAG in rules:
            sm.run(ctx, rules, ("s_initializing",))
        for k, n in floors.items():
            ctx.floor(k, n)
    return f


def c23(ctx):
    ctx.rule("every condition wait is in a loop over its predicate; every write that may end such a wait is followed by a "
             "notification before the call returns; a state is not left before the threads waiting for it have seen it")
    wakeups.run(ctx)
    ctx.floor("wait", 5)
    ctx.floor("enabling write", 6)
    for w in sorted(ctx.program().enum("wsrep::server_state::state")):
        w = w.split("::")[-1]
        if w.startswith("s_"):
            sm.run(ctx, (sm.WAIT,), (w,))
    ctx.floor("operation", 40)


def c25(ctx):
    ctx.rule("a view closes exactly the open streaming transactions whose originator is gone, once each; a final view closes "
             "all and keeps their fragments; the registries name the transaction they are asked about")
    closing.run(ctx)
    ctx.floor("callback site", 6)
    ctx.floor("registry change", 5)
    ctx.floor("registry call", 6)
    ctx.floor("membership test", 1)
    ctx.floor("view outcome", 8)


def c27(ctx):
    ctx.rule("certify only after the pending rollback events were sent; the queue is first in, first out, and an event leaves "
             "it only when the provider took it")
    trx.run(ctx, [trx.Pending()], trx.FULL)
    rbqueue.check(ctx)
    ctx.floor("flush", 1)
    ctx.floor("certification", 2)
    ctx.floor("sent", 10)
    ctx.floor("queued", 3)


TABLE = {
    "C01": (c01, "other", SESSION),
    "C02": (c02, "other", SESSION),
    "C03": (c03, "other", SESSION),
    "C04": (c04, "other", SESSION),
    "C05": (c05, "other", SESSION),
    "C06": (simple("HookErrors", "a failing hook leaves a client error or a pending replay; a rolled back victim's "
                   "client is told", {"hook outcome": 8}), "other", SESSION),
    "C07": (simple("ErrorLifetime", "the client error is cleared only after the result, with no open transaction and "
                   "no keep request", {"error write": 2}), "other", SESSION),
    "C08": (simple("Fragments", "store, certify, update meta, commit in this order; rollback of the storage on failure",
                   {"fragment certification outcome": 12, "storage scope": 1}), "other", SESSION),
    "C09": (simple("StreamingRollback", "hand-over, one rollback fragment or queued event", {"rollback fragment": 1}),
            "other", SESSION),
    "C10": (simple("Registry", "register once, deregister once", {"registration": 1, "deregistration": 3}),
            "other", SESSION),
    "C11": (applying(("streaming applier lifecycle", "streaming applier transaction", "fragment removal",
                      "execution context"), "create, register, apply "
                     "and store, deregister and release exactly once, in the applier's own context",
                     {"write set kind": 15, "streaming applier": 4, "callback site": 20}), "other", APPLY),
    "C12": (applying(("ordering consumed once", "applier transaction"), "each delivered write set is closed exactly once in the total order",
                     {"write set kind": 15, "closing site": 6}), "other", APPLY),
    "C13": (applying(("apply errors", "vote result"), "no later step after a failure, failed changes rolled back, errors voted on",
                     {"write set kind": 15, "callback site": 20}, toi=True), "other", APPLY),
    "C14": (applying(("TOI order", "vote result"), "enter, execute once, leave once with the error", {"write set kind": 3,
                                                                                      "outcome": 5},
                     toi=True, normal=False), "other", APPLY),
    "C15": (iso(("TOI pairing", "TOI errors", "session lock"), "enter and leave pair up, errors reported, transient "
                "retries only", {"enter_toi": 2, "leave_toi": 2, "retry": 1, "operation": 20}), "other", ISO),
    "C16": (iso(("NBO phases",), "two ordered phases linked by the start position", {"enter_toi": 2, "operation": 20}),
            "other", ISO),
    "C17": (iso(("RSU balance", "session lock"), "desync, wait, pause; undo on failure; resume, resync",
                {"rsu step": 4, "operation": 20}), "other", ISO),
    "C18": (c18, "other", SERVER),
    "C19": (machine((sm.DIAG, sm.ANN), "writes of the server state are edges of the diagram, under the mutex, announced",
                    {"transition": 20, "operation": 40}), "other", SERVER),
    "C20": (machine((sm.JOIN,), "joined or synced only when initialized and at or past the connected position",
                    {"joining": 3, "operation": 40}), "other", SERVER),
    "C21": (machine((sm.SST, sm.DON), "initialize, recover, check, tell the provider once; donor state around the transfer",
                    {"provider call": 4, "service call": 6, "operation": 40}), "other", SERVER),
    "C22": (machine((sm.VIEWS, sm.CONN), "views recorded, handled, logged in order; connect and disconnect",
                    {"provider call": 4, "service call": 6, "operation": 40}), "other", SERVER),
    "C23": (c23, "other", "Syntactic and CFG dataflow over every function of the library for waits, predicate writes and "
            "notifications, and the server state machine exploration with a thread waiting for each state. " + SERVER),
    "C24": (simple("Rollbacker", "no progress while the rollbacker owns the session; woken on hand-back",
                   {"hand back": 1}), "other", SESSION),
    "C25": (c25, "other", "Interprocedural path-sensitive typestate dataflow over the clang CFGs: every view in every reachable "
            "server state with every combination of up to two streaming appliers and clients, open or prepared, and every "
            "outcome of membership tests and applier callbacks; every registry function in every server state."),
    "C26": (c26, "other", SESSION),
    "C27": (c27, "other", SESSION + "The queue is analysed with up to three queued events and every outcome of sending each."),
    "C28": (simple("Handles", "released once, last", {"release": 3}), "other", SESSION),
    "C29": (simple("ClientStates", "session state and mode writes follow the diagrams under the mutex",
                   {"transition": 5}), "other", SESSION),
    "C30": (c30, "other", "Must-lockset dataflow over the clang CFGs of all functions, in every calling context (mutexes "
            "held on entry, thread role) reachable from the interface of sessions and of the server: lock balance, lock "
            "order, blocking calls, inferred guards of shared fields. "),
    "C34": (c34, "other", SESSION),
    "C33": (c33, "other", SESSION),
    "C32": (c32, "other", SESSION),
    "C31": (c31, "other", "Interprocedural path-sensitive dataflow over the clang CFGs of every interface function that hands "
            "a request on to the provider, for every status the provider may answer with. "),
}


def get(p):
    return TABLE[p]
