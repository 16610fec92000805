"""Typestate monitors over every history of one session (see session.py)."""
import spec
from interp import Monitor, U
from session import LocalSession, CSN
from world import T, N_UNDEF
from explore import explore

CERT = "wsrep::provider::certify"
COE = "wsrep::provider::commit_order_enter"
COL = "wsrep::provider::commit_order_leave"
REL = "wsrep::provider::release"
CSV = "wsrep::client_service::"
PRV = "wsrep::provider::"
SRV = "wsrep::server_state::"
SSV = "wsrep::server_service::"
STG = "wsrep::storage_service::"
COMMIT = 2


def chain(I):
    return " <- ".join(f.name.split("::")[-1] for f, l in reversed(I.stack[-3:]))


class Mon(Monitor):
    prop = None
    rule = None
    watch = ()
    policy = {}

    def report(self, I, st, msg, rule=None, up=()):
        """up: names of innermost functions to skip when naming the place."""
        where = I.where() if I.stack else "(%s)" % self.api_name
        stk = list(I.stack)
        while up and len(stk) > 1 and stk[-1][0].name.split("::")[-1] in up:
            f, l = stk.pop()
            where = "%s:%s (%s)" % (stk[-1][0].file, l, stk[-1][0].name)
        I.report(self.prop, rule or self.rule, st, msg, where=where)

    api_name = "session history"

    def note(self, I, kind, what):
        I.notes.setdefault(kind, set()).add(what)

    def on(self, I, st, ev):
        if ev.kind in ("hook", "end", "begin"):
            self.api_name = "wsrep::client_state::" + ev.name
        getattr(self, "on_" + ev.kind)(I, st, ev)

    # helpers
    def state(self, I, st):
        W = I.world
        return {W.STN[v] for v in W.tstates(st)}

    def err(self, I, st):
        return I.read(st, ("C", "current_error_"), "wsrep::client_error")

    def flag(self, I, st, name):
        return I.read(st, T + (name,), "bool")

    def done(self, I):
        """sanity after the exploration"""


def is_commit_cert(I, st, ev):
    """does this certify() call carry the commit flag? (True/False/None)"""
    f = ev.args[2]
    if type(f) is int:
        return bool(f & COMMIT)
    vs = I.values(st, f)
    if vs:
        r = {bool(v & COMMIT) for v in vs}
        if len(r) == 1:
            return r.pop()
    # fall back: the transaction's own meta data receives the order
    return ev.args[-1] == T + ("ws_meta_",)


class TrxStates(Mon):
    """C01"""
    prop, rule = "C01", "transaction lifecycle"
    kinds = ("write",)
    watch = ("state_",)

    def on_write(self, I, st, ev):
        if ev.obj != T + ("state_",):
            return
        old, new = ev.args
        W = I.world
        ov = I.values(st, old) if old is not None else None
        nv = I.values(st, new)
        if ov is None:
            ov = frozenset(W.STN)
        if nv is None:
            self.report(I, st, "transaction state set to an unknown value")
            return
        for o in ov:
            for n in nv:
                on, nn = W.STN.get(o, "?%s" % o), W.STN.get(n, "?%s" % n)
                self.note(I, "transition", "%s -> %s" % (on, nn))
                if nn in spec.TRX.get(on, ()):
                    continue
                if nn == "s_executing" and on in ("s_executing", "s_aborted", "s_committed") and \
                        any(f.name.endswith("::start_transaction") for f, l in I.stack):
                    continue
                if any(f.name.endswith("transaction::transaction") for f, l in I.stack):
                    continue
                self.report(I, st, "transition %s -> %s" % (on, nn))


class CommitGate(Mon):
    """C02: commit only after certification success, ordering, commit order entered, no BF abort pending."""
    prop, rule = "C02", "commit gate"
    kinds = ("call", "hook", "write", "begin", "bf_leave")
    watch = ("state_",)

    def on_begin(self, I, st, ev):
        for k in ("g.cert", "g.coe", "g.bf", "g.repl"):
            st.mon.pop(k, None)

    def on_bf_leave(self, I, st, ev):
        if ev.ret:
            st.mon["g.bf"] = 1

    def on_call(self, I, st, ev):
        n = ev.name
        if n == CERT and is_commit_cert(I, st, ev):
            st.mon["g.cert"] = 1 if ev.ret == 0 else 2
            self.note(I, "certify outcome", str(ev.ret))
        elif n == COE:
            if st.mon.get("g.cert") == 1 and not st.mon.get("g.bf"):
                st.mon["g.coe"] = 1 if ev.ret == 0 else 2
        elif n in (CSV + "replay", CSV + "commit_by_xid"):
            st.mon["g.repl"] = 1 if ev.ret == 0 else 2

    def on_hook(self, I, st, ev):
        if ev.name != "before_commit" or ev.ret:
            return
        self.note(I, "before_commit success", "cert=%s coe=%s" % (st.mon.get("g.cert"), st.mon.get("g.coe")))
        if st.mon.get("g.cert") != 1:
            self.report(I, st, "before_commit succeeds although certification did not")
        elif st.mon.get("g.coe") != 1:
            self.report(I, st, "before_commit succeeds without an entered commit order")
        elif st.mon.get("g.bf"):
            self.report(I, st, "before_commit succeeds for a BF aborted transaction")
        if self.state(I, st) - {"s_committing"}:
            self.report(I, st, "before_commit succeeds in state %s" % "/".join(sorted(self.state(I, st))))
        if not I.must(st, self.flag(I, st, "is_bf_immutable_"), 1):
            self.report(I, st, "before_commit succeeds and the transaction stays open to BF aborts")

    def on_write(self, I, st, ev):
        if ev.obj != T + ("state_",):
            return
        for n in I.values(st, ev.args[1]) or ():
            nn = I.world.STN.get(n)
            if nn == "s_ordered_commit":
                if st.mon.get("g.coe") != 1:
                    self.report(I, st, "ordered commit without an entered commit order")
            elif nn == "s_committed":
                o = {I.world.STN.get(x) for x in I.values(st, ev.args[0]) or ()}
                if not (st.mon.get("g.coe") == 1 or st.mon.get("g.repl") == 1):
                    self.report(I, st, "transaction becomes committed from %s with neither an ordered commit nor a "
                                       "successful replay" % "/".join(sorted(map(str, o))))


class CommitOrder(Mon):
    """C03"""
    prop, rule = "C03", "commit order enter/leave pairing"
    kinds = ("call", "end", "begin")

    def on_begin(self, I, st, ev):
        st.mon.pop("o", None)
        st.mon.pop("o.ord", None)

    def on_call(self, I, st, ev):
        n = ev.name
        if n == CERT and is_commit_cert(I, st, ev):
            st.mon.pop("o.ord", None)
            seq = st.get(ev.args[-1] + ("gtid_", "seqno_", "seqno_")) if ev.args[-1] else None
            if seq is not None and not I.may(st, seq, N_UNDEF):
                st.mon["o.ord"] = 1
        elif n == COE:
            self.note(I, "commit_order_enter site", I.where())
            if st.mon.get("o") == 1:
                self.report(I, st, "commit order entered twice")
            seq = I.read(st, T + ("ws_meta_", "gtid_", "seqno_", "seqno_"), "long")
            if I.may(st, seq, N_UNDEF) and I.world.I.must(st, st.get(("C", "mode_")), I.world.MODE["m_local"]):
                self.report(I, st, "commit order entered for a write set that was never ordered")
            if ev.ret == 0:
                st.mon["o"] = 1
            elif st.mon.get("o") != 2:
                st.mon["o"] = 3
        elif n == COL:
            self.note(I, "commit_order_leave site", I.where())
            if st.mon.get("o") != 1:
                self.report(I, st, "commit order left without having been entered")
            st.mon["o"] = 2
        elif n == CSV + "replay":
            # the replayer takes over the ordering obligation when it commits
            if ev.ret == 0 or not st.mon.get("o.ord"):
                st.mon["o"] = 4
            if ev.ret and st.mon.get("o") == 3:
                st.mon.pop("o", None)
        elif n in (CSV + "replay_unordered",):
            st.mon["o"] = 4
        elif n == REL:
            if st.mon.get("o") == 1:
                self.report(I, st, "provider handle released inside the commit order critical section")

    def on_end(self, I, st, ev):
        o = st.mon.get("o")
        if o == 1:
            self.report(I, st, "transaction ends inside the commit order critical section")
        if st.mon.get("o.ord") and o is None:
            self.report(I, st, "ordered transaction ends without passing through commit order")
        st.mon.pop("o", None)
        st.mon.pop("o.ord", None)


class BfAbort(Mon):
    """C04"""
    prop, rule = "C04", "BF abort"
    kinds = ("bf_enter", "bf_leave", "call", "begin", "hook")
    ABORTABLE = {"s_executing", "s_preparing", "s_prepared", "s_certifying", "s_committing"}

    def on_begin(self, I, st, ev):
        st.mon.pop("b", None)

    def on_bf_enter(self, I, st, ev):
        st.mon["b.prov"] = 0
        st.mon["b.bg"] = 0
        st.mon["b.st"] = tuple(sorted(self.state(I, st)))
        st.mon["b.imm"] = int(not I.must(st, self.flag(I, st, "is_bf_immutable_"), 0))
        st.mon["b.idle"] = int(I.must(st, st.get(("C", "state_")), I.world.CST["s_idle"]))
        st.mon["b.to"] = st.get(T + ("bf_aborted_in_total_order_",))

    def on_call(self, I, st, ev):
        if not st.mon.get("#bf"):
            return
        if ev.name == PRV + "bf_abort":
            st.mon["b.prov"] = 1 if ev.ret == 0 else 2
            if st.mon.get("b.imm") or not set(st.mon["b.st"]) <= self.ABORTABLE:
                self.report(I, st, "provider asked to BF abort a transaction in state %s%s" %
                            ("/".join(st.mon["b.st"]), " that is immutable" if st.mon.get("b.imm") else ""))
        elif ev.name == SSV + "background_rollback":
            st.mon["b.bg"] = st.mon.get("b.bg", 0) + 1

    def on_bf_leave(self, I, st, ev):
        W = I.world
        m = st.mon
        self.note(I, "bf_abort", "from %s idle=%s -> %s" % ("/".join(m["b.st"]), m["b.idle"], ev.ret))
        now = self.state(I, st)
        if ev.ret:
            if m["b.prov"] != 1:
                self.report(I, st, "BF abort reported successful although the provider did not abort")
            sync = I.must(st, st.get(("S", "rollback_mode_")), 1)
            if m["b.idle"] and sync:
                want = {"s_must_replay"} if (m["b.st"] == ("s_prepared",) and self.xa(I, st)) else {"s_aborting"}
                if now != want:
                    self.report(I, st, "idle victim left in state %s" % "/".join(sorted(now)))
                if m["b.bg"] != 1:
                    self.report(I, st, "idle victim: background rollback started %d times" % m["b.bg"])
                if not I.must(st, st.get(("C", "rollbacker_active_")), 1):
                    self.report(I, st, "idle victim: rollbacker not marked active")
            else:
                if now != {"s_must_abort"}:
                    self.report(I, st, "victim left in state %s" % "/".join(sorted(now)))
                if m["b.bg"]:
                    self.report(I, st, "background rollback started for a victim whose thread is running")
            if not I.must(st, I.cmp(st, "!=", I.read(st, T + ("bf_abort_client_state_",), "int"), 0), 1):
                if not m["b.idle"] or not sync:
                    self.report(I, st, "BF abort not recorded")
            if not I.must(st, self.flag(I, st, "bf_aborted_in_total_order_"), 1 if ev.args[0] else 0):
                if ev.args[0] or m["b.to"] == 0:
                    self.report(I, st, "total order flag does not match the kind of BF abort")
            m["b"] = 1
        else:
            if m["b.prov"] == 1:
                self.report(I, st, "provider aborted the transaction but BF abort reports failure")
            if tuple(sorted(now)) != m["b.st"]:
                self.report(I, st, "unsuccessful BF abort changes the transaction state")
            if m["b.bg"]:
                self.report(I, st, "unsuccessful BF abort starts a rollback")
            to = st.get(T + ("bf_aborted_in_total_order_",))
            if m["b.to"] is not None and type(m["b.to"]) is int and not I.must(st, to, m["b.to"]) and m["b.to"] == 0:
                self.report(I, st, "unsuccessful BF abort leaves the total order flag set")
        for k in ("b.prov", "b.bg", "b.st", "b.imm", "b.idle", "b.to"):
            m.pop(k, None)

    def xa(self, I, st):
        return not I.must(st, st.get(T + ("xid_", "format_id_")), N_UNDEF)

    def on_hook(self, I, st, ev):
        pass


class Replay(Mon):
    """C05"""
    prop, rule = "C05", "replay of certified victims"
    kinds = ("call", "write", "begin", "end", "bf_leave", "hook")
    watch = ("state_",)

    def on_begin(self, I, st, ev):
        for k in ("r.cert", "r.bf", "r.will", "r.done", "r.frag"):
            st.mon.pop(k, None)

    def on_bf_leave(self, I, st, ev):
        if ev.ret:
            st.mon["r.bf"] = 1

    def on_call(self, I, st, ev):
        n = ev.name
        bf = I.world.PST["error_bf_abort"]
        if n == CERT and is_commit_cert(I, st, ev):
            st.mon["r.cert"] = 1 if ev.ret == 0 else (2 if ev.ret == bf else 3)
            if ev.ret == bf:
                st.mon["r.bf"] = 1
        elif n == COE:
            if ev.ret == bf and "s_aborted" not in self.state(I, st):
                st.mon["r.bf"] = 1
        elif n == CSV + "will_replay":
            st.mon["r.will"] = min(2, st.mon.get("r.will", 0) + 1)
            if st.mon["r.will"] > 1:
                self.report(I, st, "replay announced twice")
        elif n == CSV + "signal_replayed":
            if st.mon.get("r.will", 0) < 1:
                self.report(I, st, "replay completion signalled without announcement")
            st.mon["r.will"] = 0
        elif n == CSV + "replay":
            self.note(I, "replay call", "cert=%s" % st.mon.get("r.cert"))
            if st.mon.get("r.cert") not in (1, 2):
                self.report(I, st, "replay of a transaction whose write set did not pass certification")
            if not st.mon.get("r.bf"):
                self.report(I, st, "replay of a transaction that was not BF aborted")
            if st.mon.get("r.will", 0) != 1:
                self.report(I, st, "replay without announcing it first")
            st.mon["r.done"] = 1 if ev.ret == 0 else 2
        elif n == CSV + "replay_unordered":
            self.note(I, "replay call", "unordered")
            if st.mon.get("r.will", 0) != 1:
                self.report(I, st, "replay without announcing it first")
            # the transaction continues as a prepared one handled by an applier
            st.mon.pop("r.cert", None)
            st.mon.pop("r.bf", None)
        elif n == PRV + "rollback" or n in (SRV + "queue_rollback_event",):
            if st.mon.get("r.cert") == 1 and st.mon.get("r.bf") and not st.mon.get("#bf"):
                self.report(I, st, "certified BF victim is rolled back in the cluster")

    def on_write(self, I, st, ev):
        if ev.obj != T + ("state_",):
            return
        W = I.world
        for n in I.values(st, ev.args[1]) or ():
            nn = W.STN.get(n)
            if nn in ("s_aborting", "s_cert_failed") and st.mon.get("r.bf") and st.mon.get("r.cert") in (1, 2):
                self.report(I, st, "certified BF victim goes to %s instead of replay" % nn)

    def on_hook(self, I, st, ev):
        # after the statement (or command) ends nothing is left waiting for replay
        if ev.name in ("after_statement", "after_command_before_result", "after_command_after_result", "close"):
            if "s_must_replay" in self.state(I, st) and I.world.active(st) and not st.mon.get("#bg"):
                if not st.mon.get("#hold"):
                    self.report(I, st, "%s leaves the transaction waiting for replay" % ev.name)

    def on_end(self, I, st, ev):
        if st.mon.get("r.will"):
            self.report(I, st, "transaction ends with an announced replay that is never signalled")
        fin = self.state(I, st)
        self.note(I, "end", "%s cert=%s bf=%s replay=%s" % ("/".join(sorted(fin)), st.mon.get("r.cert"),
                                                          st.mon.get("r.bf"), st.mon.get("r.done")))
        if st.mon.get("r.bf") and st.mon.get("r.cert") == 1 and not st.mon.get("r.done"):
            self.report(I, st, "certified BF victim ends without replay")
        if st.mon.get("r.done") == 1 and st.mon.get("r.cert") in (1, 2) and fin != {"s_committed"}:
            self.report(I, st, "successfully replayed transaction ends in state %s" % "/".join(sorted(fin)))
        if st.mon.get("r.done") == 2 and "s_committed" in fin:
            self.report(I, st, "transaction whose replay failed ends committed")
        for k in ("r.cert", "r.bf", "r.will", "r.done"):
            st.mon.pop(k, None)


class HookErrors(Mon):
    """C06"""
    prop, rule = "C06", "failures are reported with a reason"
    kinds = ("hook", "end", "begin", "bf_leave", "call")
    HOOKS = ("before_prepare", "after_prepare", "before_commit", "after_row")

    def on_begin(self, I, st, ev):
        for k in ("e.bf", "e.fail", "e.ok"):
            st.mon.pop(k, None)

    def on_bf_leave(self, I, st, ev):
        if ev.ret:
            st.mon["e.bf"] = 1

    def on_call(self, I, st, ev):
        if ev.name in (CSV + "replay", CSV + "commit_by_xid") and ev.ret == 0:
            st.mon["e.ok"] = 1
        elif ev.name == CSV + "replay_unordered":
            st.mon["e.ok"] = 1
        elif ev.name == CSV + "is_xa_rollback" and ev.ret:
            st.mon["e.ok"] = 1

    def on_hook(self, I, st, ev):
        if st.mon.get("#nested"):
            return
        n = ev.name
        stt = self.state(I, st)
        noerr = not I.must(st, I.cmp(st, "!=", self.err(I, st), 0), 1)
        if n in self.HOOKS:
            self.note(I, "hook outcome", "%s=%s in %s" % (n, ev.ret, "/".join(sorted(stt))))
            if ev.ret:
                if noerr and stt != {"s_must_replay"}:
                    self.report(I, st, "%s fails without a client error (state %s)" % (n, "/".join(sorted(stt))))
                st.mon["e.fail"] = 1
                if n != "after_row" and stt & {"s_executing", "s_preparing", "s_committing", "s_certifying"}:
                    self.report(I, st, "%s fails and leaves the transaction in %s" % (n, "/".join(sorted(stt))))
            else:
                if n in ("before_prepare", "after_prepare", "before_commit") and \
                        not stt <= {"s_preparing", "s_prepared", "s_committing"}:
                    self.report(I, st, "%s succeeds in state %s" % (n, "/".join(sorted(stt))))
        elif n == "after_statement":
            e = self.err(I, st)
            dl = I.world.ERR["e_deadlock_error"]
            if I.must(st, e, dl) and ev.ret == 0:
                self.report(I, st, "after_statement hides a deadlock error")
            if ev.ret and not I.must(st, e, dl):
                self.report(I, st, "after_statement fails without a deadlock error")

    def on_end(self, I, st, ev):
        fin = self.state(I, st)
        noerr = not I.must(st, I.cmp(st, "!=", self.err(I, st), 0), 1)
        self.note(I, "end", "%s bf=%s failed=%s via %s" % ("/".join(sorted(fin)), st.mon.get("e.bf"),
                                                         st.mon.get("e.fail"), ev.name))
        if fin == {"s_aborted"} and noerr and not st.mon.get("e.ok") and \
                (st.mon.get("e.bf") or st.mon.get("e.fail")) and ev.name not in ("close", "xa_detach", "cleanup"):
            self.report(I, st, "%s transaction ends rolled back without a client error" %
                        ("BF aborted" if st.mon.get("e.bf") else "failed"))
        for k in ("e.bf", "e.fail", "e.ok"):
            st.mon.pop(k, None)


class ErrorLifetime(Mon):
    """C07"""
    prop, rule = "C07", "client error lifetime"
    kinds = ("write", "hook")
    watch = ("current_error_",)

    def on_write(self, I, st, ev):
        if ev.obj != ("C", "current_error_"):
            return
        old, new = ev.args
        self.note(I, "error write", I.where())
        if I.must(st, new, 0):
            if any(f.name.split("::")[-1] in ("reset_error", "client_state") for f, l in I.stack):
                return
            if old is not None and I.must(st, old, 0):
                return
            if not any(f.name.endswith("client_state::after_command_after_result") for f, l in I.stack):
                self.report(I, st, "client error cleared before its result was sent")
            elif I.world.active(st):
                self.report(I, st, "client error cleared while its transaction is still open")
            elif not I.must(st, st.get(("C", "keep_command_error_")), 0):
                self.report(I, st, "client error cleared although it is kept for the next command")
        elif I.may(st, new, 0) and old is not None and not I.must(st, old, 0):
            self.report(I, st, "client error overwritten with a value that may be success")

    def on_hook(self, I, st, ev):
        if ev.name == "after_command_after_result":
            W = I.world
            if not W.active(st) and I.must(st, st.get(("C", "keep_command_error_")), 0) and not st.mon.get("l.keep"):
                if not I.must(st, self.err(I, st), 0):
                    self.report(I, st, "client error of a finished command leaks into the next command")
            st.mon.pop("l.keep", None)
        elif ev.name == "before_command":
            st.mon.pop("l.keep", None)
            if not I.must(st, st.get(("C", "keep_command_error_")), 0):
                st.mon["l.keep"] = 1


class Fragments(Mon):
    """C08"""
    prop, rule = "C08", "fragment durability protocol"
    kinds = ("call", "hook", "begin", "end")

    # storage phases: 0 none, 1 acquired, 2 started, 3 appended, 4 certified, 5 meta updated, 6 closed
    def on_begin(self, I, st, ev):
        st.mon.pop("f", None)
        st.mon.pop("f.any", None)

    def on_end(self, I, st, ev):
        st.mon.pop("f.any", None)

    def on_call(self, I, st, ev):
        n = ev.name
        m = st.mon
        f = m.get("f", 0)
        if n == SSV + "storage_service":
            if f:
                self.report(I, st, "storage service acquired while another one is in use")
            m["f"] = 1
            m["f.st"] = None
        elif n == SSV + "release_storage_service":
            self.note(I, "storage scope", I.where())
            if not f:
                self.report(I, st, "storage service released twice")
            if f in (2, 3, 4, 5):
                self.report(I, st, "storage service released with an open fragment transaction")
            m["f"] = 0
            m["f.glob"] = 1 if m.get("f.glob") else 0
        elif n == STG + "requires_globals":
            m["f.req"] = 0 if ev.ret == 0 else 1
        elif n == STG + "start_transaction":
            if f != 1:
                self.report(I, st, "fragment storage transaction started out of order")
            m["f"] = 2 if ev.ret == 0 else 6
        elif n == STG + "append_fragment":
            if f != 2:
                self.report(I, st, "fragment appended outside of a storage transaction")
            m["f"] = 3
            m["f.app"] = 1 if ev.ret == 0 else 0
        elif n == CERT and not is_commit_cert(I, st, ev) and I.stack and \
                not any(g.name.endswith("commit_or_rollback_by_xid") for g, l in I.stack):
            self.note(I, "fragment certification outcome", str(ev.ret))
            if f != 3 or not m.get("f.app"):
                self.report(I, st, "fragment certified before it was stored")
            m["f"] = 4
            m["f.cert"] = 1 if ev.ret == 0 else 2
            m["f.loc"] = ev.args[-1]
        elif n == STG + "update_fragment_meta":
            if f != 4 or m.get("f.cert") != 1:
                self.report(I, st, "fragment meta data updated without successful certification")
            a = ev.args[0]
            loc = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
            seq = st.get(loc + ("gtid_", "seqno_", "seqno_")) if loc else None
            if seq is None or I.may(st, seq, N_UNDEF):
                self.report(I, st, "stored fragment gets unordered meta data")
            m["f"] = 5
            m["f.app"] = 1 if ev.ret == 0 else 0
        elif n == STG + "commit":
            if f == 1 and m.get("f.adopt"):
                # fragment removal scope
                if not m.get("f.rm"):
                    self.report(I, st, "fragment removal committed without removing fragments")
                m["f"] = 6
            else:
                if f != 5 or not m.get("f.app"):
                    self.report(I, st, "fragment storage committed out of order")
                m["f"] = 6
                m["f.st"] = 1 if ev.ret == 0 else 2
        elif n == STG + "rollback":
            if f not in (3, 4, 5):
                self.report(I, st, "fragment storage rolled back out of order")
            m["f"] = 6
            m["f.st"] = 2
        elif n == STG + "adopt_transaction":
            m["f.adopt"] = 1
        elif n == STG + "remove_fragments":
            if not m.get("f.adopt"):
                self.report(I, st, "fragments removed without adopting the transaction")
            m["f.rm"] = 1
            self.note(I, "fragment removal", I.where())

    def on_hook(self, I, st, ev):
        m = st.mon
        if st.mon.get("f"):
            self.report(I, st, "%s returns with a storage service in use" % ev.name)
        if m.get("f.cert") and not m.get("#bf"):
            sr = I.read(st, T + ("streaming_context_", "fragments_certified_"), "unsigned long")
            ret = ev.ret
            if ev.name in ("after_row", "before_prepare"):
                if not ret and m.get("f.cert") != 1:
                    self.report(I, st, "%s succeeds although fragment certification failed" % ev.name)
                if not ret and m.get("f.st") != 1:
                    self.report(I, st, "%s succeeds although the fragment was not stored" % ev.name)
            if m.get("f.cert") == 1 and I.world.active(st) and I.must(st, sr, 0) and \
                    self.state(I, st) <= {"s_executing", "s_must_abort", "s_preparing", "s_prepared"}:
                self.report(I, st, "certified fragment not accounted to the transaction")
        for k in ("f", "f.st", "f.app", "f.cert", "f.adopt", "f.rm", "f.req", "f.glob", "f.loc"):
            m.pop(k, None)


class StreamingRollback(Mon):
    """C09: a rolled back streaming transaction is rolled back in the cluster exactly once."""
    prop, rule = "C09", "streaming rollback exactly once"
    kinds = ("call", "begin", "end", "write")
    watch = ("streaming_rollback_in_progress_", "state_")

    def clear(self, st):
        for k in ("s.frag", "s.rb", "s.conv", "s.xa", "s.q"):
            st.mon.pop(k, None)

    def on_begin(self, I, st, ev):
        self.clear(st)

    def on_write(self, I, st, ev):
        if ev.obj == T + ("state_",) and st.mon.get("s.conv") and I.must(st, ev.args[1], I.world.s("s_prepared")):
            st.mon.pop("s.conv", None)      # reported by C10
        if ev.obj == T + ("streaming_rollback_in_progress_",) and I.must(st, ev.args[1], 1):
            if not I.must(st, ev.args[0], 0):
                self.report(I, st, "streaming rollback entered while another thread is in it")
            if not I.held(st, ("Cm",)):
                self.report(I, st, "streaming rollback flag set without holding the session mutex")

    def on_call(self, I, st, ev):
        n = ev.name
        m = st.mon
        if n == CERT and not is_commit_cert(I, st, ev):
            if ev.ret in (0, I.world.PST["error_bf_abort"], I.world.PST["error_certification_failed"]):
                m["s.frag"] = 1
        elif n == PRV + "rollback":
            self.note(I, "rollback fragment", I.where())
            if m.get("s.rb"):
                self.report(I, st, "rollback fragment sent twice")
            if not m.get("s.frag"):
                self.report(I, st, "rollback fragment sent for a transaction without fragments")
            if not m.get("s.conv"):
                self.report(I, st, "rollback fragment sent before the transaction was handed to an applier")
            m["s.rb"] = 1
            if ev.ret != 0:
                m["s.q"] = 1
        elif n == SRV + "queue_rollback_event":
            if not m.get("s.q"):
                self.report(I, st, "rollback event queued although the rollback fragment was replicated")
            m["s.q"] = 0
        elif n == SRV + "convert_streaming_client_to_applier":
            if m.get("s.conv") == 1 or m.get("s.rb"):
                self.report(I, st, "streaming transaction handed over twice")
            m["s.conv"] = 1
            if any(f.name.split("::")[-1] in ("xa_detach", "xa_replay_common", "xa_replay", "xa_replay_commit")
                   for f, l in I.stack):
                m["s.xa"] = 1
        elif n == CSV + "replay":
            m["s.repl"] = 1
        elif n == SRV + "stop_streaming_client":
            if m.get("s.frag") and not m.get("s.repl"):
                if I.must(st, self.flag(I, st, "bf_aborted_in_total_order_"), 1):
                    m["s.rb"] = 1

    def on_end(self, I, st, ev):
        m = st.mon
        fin = self.state(I, st)
        if m.get("s.q"):
            self.report(I, st, "rollback fragment could not be sent and was not queued")
        self.note(I, "end", "%s frag=%s rb=%s conv=%s" % ("/".join(sorted(fin)), m.get("s.frag"), m.get("s.rb"),
                                                        m.get("s.conv")))
        if fin == {"s_aborted"} and m.get("s.frag") and not m.get("s.rb") and not m.get("s.xa") and not m.get("s.repl"):
            self.report(I, st, "streaming transaction rolled back without telling the cluster")
        if fin == {"s_committed"} and m.get("s.rb"):
            self.report(I, st, "committed transaction was rolled back in the cluster")
        m.pop("s.repl", None)
        self.clear(st)


class Registry(Mon):
    """C10"""
    prop, rule = "C10", "streaming client registration"
    kinds = ("call", "begin", "end", "write")
    watch = ("state_",)

    def on_write(self, I, st, ev):
        if ev.obj == T + ("state_",) and st.mon.get("k") == 0 and I.must(st, ev.args[1], I.world.s("s_prepared")):
            self.report(I, st, "transaction is made prepared again although its streaming client has been handed over",
                        up=("state",))
            st.mon["k"] = 2         # what follows is a consequence

    def on_begin(self, I, st, ev):
        st.mon.pop("k", None)

    def on_call(self, I, st, ev):
        n = ev.name
        if n == SRV + "start_streaming_client":
            self.note(I, "registration", I.where())
            if st.mon.get("k") == 1:
                self.report(I, st, "streaming client registered twice")
            st.mon["k"] = 1
        elif n in (SRV + "stop_streaming_client", SRV + "convert_streaming_client_to_applier"):
            self.note(I, "deregistration", I.where())
            if not st.mon.get("k"):
                self.report(I, st, "streaming client deregistered although it is not registered")
            if st.mon.get("k") != 2:
                st.mon["k"] = 0
        elif n == CERT and not is_commit_cert(I, st, ev):
            if not st.mon.get("k"):
                self.report(I, st, "fragment certified for an unregistered streaming client")

    def on_end(self, I, st, ev):
        if st.mon.get("k") == 1:
            self.report(I, st, "transaction ends with its streaming client still registered")
        st.mon.pop("k", None)


class Rollbacker(Mon):
    """C24"""
    prop, rule = "C24", "rollbacker hand-over"
    kinds = ("write", "hook", "call")
    watch = ("state_", "rollbacker_active_")

    def on_write(self, I, st, ev):
        W = I.world
        if ev.obj == ("C", "state_"):
            act = st.get(("C", "rollbacker_active_"))
            for n in I.values(st, ev.args[1]) or ():
                self.note(I, "client state", str(n))
                if n in (W.CST["s_exec"], W.CST["s_quitting"]) and not I.must(st, act, 0):
                    self.report(I, st, "session continues while the background rollbacker owns its transaction")
        elif ev.obj == ("C", "rollbacker_active_"):
            if I.must(st, ev.args[1], 0) and ev.args[0] is not None and not I.must(st, ev.args[0], 0):
                self.note(I, "hand back", I.where())
                if not I.held(st, ("Cm",)):
                    self.report(I, st, "session handed back without holding its mutex")
                st.mon["h.n"] = 1

    def on_call(self, I, st, ev):
        if ev.name == "wsrep::condition_variable::notify_all" or ev.name == "wsrep::condition_variable::notify_one":
            if ev.obj == ("Cc",) or ev.obj is None:
                st.mon.pop("h.n", None)

    def on_hook(self, I, st, ev):
        if st.mon.get("h.n"):
            self.report(I, st, "session handed back without waking its thread")
        if ev.name == "sync_rollback_complete":
            if not I.must(st, st.get(("C", "rollbacker_active_")), 0):
                self.report(I, st, "rollbacker still active after completing")


class Cleanup(Mon):
    """C26"""
    prop, rule = "C26", "no residue of a finished transaction"
    kinds = ("end", "call", "begin", "write")
    RESET = {("ws_meta_", "gtid_", "seqno_", "seqno_"): N_UNDEF, ("certified_",): 0, ("is_bf_immutable_",): 0,
             ("bf_abort_client_state_",): 0, ("bf_aborted_in_total_order_",): 0, ("flags_",): 0,
             ("implicit_deps_",): 0, ("xid_", "format_id_"): N_UNDEF,
             ("streaming_context_", "fragments_certified_"): 0,
             ("streaming_context_", "rollback_replicated_for_", "id_"): N_UNDEF,
             ("streaming_context_", "fragments_"): "EMPTY",
             ("streaming_context_", "unit_counter_"): 0,
             ("streaming_context_", "log_position_"): 0,
             ("streaming_rollback_in_progress_",): 0,
             ("apply_error_buf_", "buffer_"): "EMPTY",
             ("sr_keys_", "root_"): "EMPTY",
             }
    # fields followed within a call only, a few per exploration
    GROUPS = ((("flags_",), ("apply_error_buf_", "buffer_")),
              (("implicit_deps_",), ("streaming_context_", "fragments_")),
              (("streaming_context_", "unit_counter_"), ("streaming_context_", "log_position_")),
              (("sr_keys_", "root_"),))

    def __init__(self, group=0):
        self.policy = {p: "call" for p in self.GROUPS[group]}
        skip = {p for g in self.GROUPS for p in g} - set(self.policy)
        self.reset = {p: v for p, v in self.RESET.items() if p not in skip}

    watch = ("id_",)

    def on_begin(self, I, st, ev):
        st.mon.pop("u", None)
        for p, want in self.reset.items():
            if p in self.policy:
                continue            # known to be reset when the previous transaction ended
            v = st.get(T + p)
            if v is None or not (v == want or (type(want) is int and I.must(st, v, want))):
                self.report(I, st, "new transaction starts with stale %s" % "::".join(x.rstrip("_") for x in p))

    def on_write(self, I, st, ev):
        pass

    def on_call(self, I, st, ev):
        if ev.name == CSV + "cleanup_transaction":
            st.mon["u"] = min(2, st.mon.get("u", 0) + 1)

    def on_end(self, I, st, ev):
        if not st.mon.get("u"):
            self.report(I, st, "transaction ends without cleaning up in the DBMS")
        fin = self.state(I, st)
        self.note(I, "end", "%s via %s" % ("/".join(sorted(fin)), ev.name))
        if not fin <= {"s_committed", "s_aborted"}:
            self.report(I, st, "transaction ends in state %s" % "/".join(sorted(fin)))
        for p, want in self.reset.items():
            v = st.get(T + p)
            ok = v is not None and (v == want or (type(want) is int and I.must(st, v, want)))
            if not ok:
                self.report(I, st, "%s survives the end of its transaction" % "::".join(x.rstrip("_") for x in p))
        st.mon.pop("u", None)


class Pending(Mon):
    """C27: rollback events of other transactions reach the cluster before a new fragment or commit does"""
    prop, rule = "C27", "pending rollback events first"
    kinds = ("call", "begin", "end")

    def on_begin(self, I, st, ev):
        st.mon.pop("pe", None)

    def on_end(self, I, st, ev):
        st.mon.pop("pe", None)

    def on_call(self, I, st, ev):
        m = st.mon
        if ev.name == SRV + "send_pending_rollback_events":
            self.note(I, "flush", I.where())
            if I.held(st, ("Cm",)):
                self.report(I, st, "pending rollback events are sent while holding the session mutex")
            d = I.decide(st, ev.ret)
            m["pe"] = "ok" if d is False else "bad" if d else ev.ret
        elif ev.name == CERT:
            if ev.args[-1] != T + ("ws_meta_",) and type(ev.args[-1]) is tuple and ev.args[-1][0] == "l" and \
                    not I.world.active(st):
                return
            self.note(I, "certification", I.where())
            pe = m.pop("pe", None)
            ok = pe == "ok" or pe is not None and pe != "bad" and I.must(st, pe, 0)
            xa = I.read(st, T + ("xid_", "format_id_"), "long")
            if not ok and not (pe is not None and is_commit_cert(I, st, ev) and not I.may(st, xa, N_UNDEF)):
                self.report(I, st, "certified although %s" % (
                    "pending rollback events were not sent" if pe is None else "sending pending rollback events failed"))


class Handles(Mon):
    """C28"""
    prop, rule = "C28", "provider handle lifetime"
    kinds = ("call", "begin", "end")

    def on_begin(self, I, st, ev):
        pass

    def on_call(self, I, st, ev):
        n = ev.name
        if n == PRV + "start_transaction":
            st.mon["h"] = 1
        elif n in (PRV + "append_key", PRV + "append_data", CERT):
            if st.mon.get("h") == 2 and not st.mon.get("h.frag"):
                self.report(I, st, "%s after the provider handle was released" % n.split("::")[-1])
            st.mon["h"] = 1
            if n == CERT:
                st.mon["h.frag"] = 1 if not is_commit_cert(I, st, ev) else 0
        elif n in (COE, COL):
            if st.mon.get("h") == 2:
                self.report(I, st, "%s after the provider handle was released" % n.split("::")[-1])
        elif n == CSV + "is_explicit_xa":
            # the DBMS keeps an aborted XA transaction until it is rolled back explicitly
            if ev.ret and self.state(I, st) == {"s_aborted"}:
                st.mon["h.xa"] = 1
        elif n == REL:
            self.note(I, "release", I.where())
            if st.mon.get("h") == 2 and not st.mon.get("h.frag") and I.world.active(st) and not st.mon.get("h.xa"):
                self.report(I, st, "provider handle released twice")
            if st.mon.get("h") == 2:
                st.mon["h.frag"] = 0
            st.mon["h"] = 2

    def on_end(self, I, st, ev):
        st.mon.pop("h.xa", None)
        if st.mon.get("h") == 1:
            self.report(I, st, "transaction ends without releasing its provider handle")
        st.mon.pop("h", None)
        st.mon.pop("h.frag", None)


class WriteSets(Mon):
    """C32: flags and keys of every write set the session replicates"""
    prop, rule = "C32", "write set flags"
    kinds = ("call", "begin", "end", "hook", "write")
    F = dict(start=1, commit=2, rollback=4, pa_unsafe=16, prepare=128, implicit=512)
    IMPL = T + ("implicit_deps_",)
    policy = {("flags_",): "keep", ("implicit_deps_",): "keep"}

    def install(self, W):
        """note where the keys of the fragments are looked at"""
        P = W.P
        self.looks = set()
        for nm in P.by_name:
            if not nm.startswith("wsrep::sr_key_set::"):
                continue
            for f in P.by_name[nm]:
                if "branch_type" in (f.ret or "") or "std::map<" in (f.ret or ""):
                    self.looks.add(nm)
        for nm in self.looks:
            W.I.models[nm] = self.m_look

    def m_look(self, I, st, c):
        hook = self.hook(I)
        if hook in ("before_commit", "before_prepare") and not any(f.name.endswith("log_state") for f, l in I.stack):
            st.mon["ws.r"] = 1
        loc = I.objloc(st, c.node, c.obj)
        root = [f["name"] for f in I.P.records["wsrep::sr_key_set"]["fields"]][0]
        return [(st, ("l", loc + (root,)))]

    def on_begin(self, I, st, ev):
        for k in ("ws.n", "ws.k", "ws.a", "ws.p", "ws.r"):
            st.mon.pop(k, None)

    on_end = on_begin

    def on_hook(self, I, st, ev):
        for k in ("ws.k", "ws.a", "ws.r"):
            st.mon.pop(k, None)

    def on_write(self, I, st, ev):
        pass

    def hook(self, I):
        for f, l in I.stack:
            if f.name.startswith(CSN):
                return f.name[len(CSN):]
        return "?"

    def bits(self, I, st, f, name):
        """0, 1 or None"""
        vs = {f} if type(f) is int else I.values(st, f)
        if not vs:
            return None
        b = {bool(v & self.F[name]) for v in vs}
        return int(b.pop()) if len(b) == 1 else None

    def on_call(self, I, st, ev):
        n, m = ev.name, st.mon
        if n == PRV + "append_key":
            hook = self.hook(I)
            if hook in ("before_commit", "before_prepare") and type(ev.ret) is int:
                m["ws.k"] = 1
                a = ev.args[1]
                loc = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
                self.key(I, st, loc)
            return
        if n == "wsrep::storage_service::append_fragment":
            f = ev.args[2]
            m["ws.a"] = tuple(sorted({f} if type(f) is int else I.values(st, f) or ()))
            return
        if n != CERT:
            return
        hook = self.hook(I)
        f = ev.args[2]
        vs = {f} if type(f) is int else I.values(st, f)
        if not vs:
            self.note(I, "undecided flags", I.where())
            return
        xa = not I.must(st, st.get(T + ("xid_", "format_id_")), N_UNDEF)
        got = {k: self.bits(I, st, f, k) for k in self.F}
        sr = bool(m.get("ws.n"))
        if hook in ("before_prepare", "before_commit") and xa and not m.get("ws.p"):
            kind = "prepare"
        elif hook in ("before_commit", "before_prepare"):
            kind = "commit"
        else:
            kind = "fragment"
        self.note(I, "write set", "%s in %s%s" % (kind, hook, " (streaming)" if sr else ""))
        want = dict(start=int(not sr), commit=int(kind == "commit"), prepare=int(kind == "prepare"), rollback=0,
                    pa_unsafe=int(kind == "prepare" or kind == "commit" and sr))
        what = {"start": "start of the transaction", "commit": "commit", "prepare": "prepare", "rollback": "rollback",
                "pa_unsafe": "no parallel applying"}
        for k in ("start", "commit", "rollback", "prepare", "pa_unsafe"):
            if got[k] != want[k]:
                self.report(I, st, "%s%s is replicated %s the flag for %s" % (
                    {"prepare": "prepare fragment", "commit": "commit write set", "fragment": "fragment"}[kind],
                    " of a streaming transaction" if sr else "", "without" if want[k] else "with", what[k]))
        v = st.get(self.IMPL)
        if v is not None:
            d = I.decide(st, v)
            if d is not None and got["implicit"] is not None and bool(d) != bool(got["implicit"]):
                if d:
                    self.report(I, st, "write set with implicit dependencies is replicated without saying so")
                else:
                    self.report(I, st, "write set is replicated as having implicit dependencies although it has none")
            elif d is not None:
                self.note(I, "implicit dependencies", str(int(d)))
        if kind != "commit":
            a = m.get("ws.a")
            if a is not None and a != tuple(sorted(vs)):
                self.report(I, st, "the fragment is stored with other flags than it is replicated with")
            if a is not None:
                self.note(I, "stored flags", hook)
        if sr and kind != "fragment":
            if not (xa and kind == "commit"):       # the prepare fragment had them
                self.note(I, "keys wanted", "%s %s" % (hook, "xa" if xa else "trx"))
                if self.looks and not m.get("ws.r") and not m.get("ws.k"):
                    self.report(I, st, "the last write set of a streaming transaction is replicated without the keys of "
                                "the earlier fragments")
                if m.get("ws.k"):
                    self.note(I, "keys given", "%s %s" % (hook, "xa" if xa else "trx"))
        if kind != "commit" and ev.ret == I.world.PST["success"]:
            m["ws.n"] = 1
            if kind == "prepare":
                m["ws.p"] = 1

    def key(self, I, st, loc):
        if loc is None:
            return
        r = I.P.records.get("wsrep::key")
        for f in r["fields"]:
            v = st.get(loc + (f["name"],))
            if f["t"] == "wsrep::key::type":
                want = I.P.enum("wsrep::key::type")["shared"]
                self.note(I, "key", "type")
                if not I.must(st, v, want):
                    self.report(I, st, "certified keys are appended again with another type than shared")
            elif f["t"] in ("size_t", "unsigned long"):
                self.note(I, "key", "parts")
                if not I.must(st, v, 2):
                    self.report(I, st, "certified keys are appended again without all their parts")


class OwnWriteSet(Mon):
    """C33: what a transaction asks of the provider and of the fragment storage names its own write set"""
    prop, rule = "C33", "own write set"
    kinds = ("call", "begin", "end", "hook", "write")
    SRVS = "wsrep::server_service::"
    #        function -> what each argument has to be
    WANT = {PRV + "commit_order_enter": ("handle", "meta"),
            PRV + "commit_order_leave": ("handle", "meta", "error"),
            PRV + "release": ("handle",),
            PRV + "append_key": ("handle",),
            PRV + "append_data": ("handle",),
            PRV + "assign_read_view": ("handle",),
            PRV + "start_transaction": ("handle",),
            PRV + "rollback": ("id",),
            CERT: (None, "handle", None, "out"),
            "wsrep::storage_service::start_transaction": ("handle",),
            "wsrep::storage_service::append_fragment": (None, "id", None, None, "xid"),
            "wsrep::storage_service::update_fragment_meta": ("frag",),
            "wsrep::storage_service::commit": ("handle", "frag"),
            "wsrep::storage_service::adopt_transaction": ("trx",),
            "wsrep::server_service::set_position": (None, "gtid")}
    TYPE = {"handle": "wsrep::ws_handle", "meta": "wsrep::ws_meta", "error": "wsrep::mutable_buffer",
            "id": "wsrep::transaction_id", "xid": "wsrep::xid"}
    NAME = {"handle": "write set handle", "meta": "meta data", "error": "apply error", "id": "transaction id",
            "xid": "XID", "gtid": "GTID", "frag": "meta data of the fragment", "trx": "transaction"}
    policy = {("ws_handle_", "transaction_id_", "id_"): "call", ("ws_handle_", "opaque_"): "call",
              ("xid_", "gtrid_len_"): "call", ("xid_", "bqual_len_"): "call",
              ("apply_error_buf_", "buffer_"): "call", ("ws_meta_", "gtid_", "id_"): "call",
              ("ws_meta_", "depends_on_", "seqno_"): "call", ("ws_meta_", "flags_"): "call",
              ("ws_meta_", "stid_", "server_id_"): "call", ("ws_meta_", "stid_", "transaction_id_", "id_"): "call",
              ("ws_meta_", "stid_", "client_id_", "id_"): "call"}

    def on_begin(self, I, st, ev):
        st.mon.pop("ow.f", None)

    on_end = on_begin

    def on_hook(self, I, st, ev):
        st.mon.pop("ow.f", None)

    def on_write(self, I, st, ev):
        pass

    def field(self, I, t):
        c = [f["name"] for f in I.P.records["wsrep::transaction"]["fields"] if f["t"] == t]
        if len(c) != 1:
            raise AnalysisBroken("anchor vanished: field of type %s in transaction: %s" % (t, c))
        return T + (c[0],)

    def same(self, I, st, a, loc, t):
        """True, False or None"""
        al = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
        if al == loc:
            return True
        res = True
        for p, tt in I.leaves(t):
            x = st.get(al + p) if al is not None else (a if len(I.leaves(t)) == 1 else None)
            y = st.get(loc + p)
            if x is None or y is None:
                res = None
                continue
            x, y = I.norm(st, x), I.norm(st, y)
            if x == U or y == U:
                res = None
            elif x != y:
                d = I.decide(st, I.cmp(st, "==", x, y))
                if d is False or d == 0 or type(x) is tuple and type(y) is tuple:
                    return False
                if d is None:
                    return False
        return res

    def on_call(self, I, st, ev):
        want = self.WANT.get(ev.name)
        if want is None:
            return
        m = st.mon
        sh = ev.name.split("::")[-2] + "::" + ev.name.split("::")[-1]
        fns = [f.name for f, l in I.stack]
        if not any(f.startswith("wsrep::transaction::") for f in fns):
            return                      # isolation and others have their own handles
        hook = I.stack[-1][0].name.split("::")[-1]
        for i, w in enumerate(want):
            if w is None or i >= len(ev.args):
                continue
            a = ev.args[i]
            al = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
            if w == "out":
                if is_commit_cert(I, st, ev):
                    ok = al == self.field(I, "wsrep::ws_meta")
                    self.note(I, "argument", "%s %d" % (sh, i))
                    if not ok:
                        self.report(I, st, "the order of the commit write set is not kept in the transaction")
                elif al is not None:
                    m["ow.f"] = al
                continue
            if w == "frag":
                f = m.get("ow.f")
                if f is None:
                    continue            # removal of fragments: nothing was certified for it
                ok = True if al == f else self.same(I, st, a, f, "wsrep::ws_meta")
            elif w == "trx":
                ok = al == T
            elif w == "gtid":
                t = self.field(I, "wsrep::ws_meta") + ("gtid_",)
                ok = al == t or self.same(I, st, a, t, "wsrep::gtid")
            else:
                ok = self.same(I, st, a, self.field(I, self.TYPE[w]), self.TYPE[w])
            if sh == "storage_service::commit" and m.get("ow.f") is None:
                continue                # removal of fragments, not ordered by itself
            self.note(I, "argument", "%s %d" % (sh, i))
            if not ok:
                self.report(I, st, "%s() is given another %s than that of the transaction" % (sh, self.NAME[w]))
        if sh in ("storage_service::commit", "storage_service::adopt_transaction"):
            m.pop("ow.f", None)         # over, or the removal of fragments


class Leftover(Mon):
    """C34: when a transaction is over nothing of it is left for the session's next one"""
    prop, rule = "C34", "nothing left over"
    kinds = ("call", "begin", "end", "hook", "write")
    SKIP = ("state_", "server_id_", "bf_abort_state_", "fragments_certified_for_statement_",
            "streaming_rollback_in_progress_")       # set at start, or belonging to session or statement
    NAME = {"id_": "id", "flags_": "flags", "implicit_deps_": "implicit dependencies", "certified_": "certification",
            "ws_handle_": "write set handle", "ws_meta_": "meta data", "xid_": "XID", "sr_keys_": "keys",
            "apply_error_buf_": "apply error", "streaming_context_": "fragments", "bf_abort_client_state_": "BF abort",
            "bf_aborted_in_total_order_": "BF abort", "bf_abort_provider_status_": "BF abort",
            "is_bf_immutable_": "immutability against BF aborts"}

    def __init__(self, P):
        from interp import Interp
        from world import TRX_POLICY
        I = Interp(P)
        self.leaf = []
        self.rec = []
        for f in P.records["wsrep::transaction"]["fields"]:
            n = f["name"]
            if n in self.SKIP or n not in self.NAME or f.get("ref") or f["t"].endswith(("&", "*")) or f["t"].startswith("std::vector") or \
                    f["t"] in ("wsrep::server_service", "wsrep::client_service", "wsrep::client_state"):
                continue
            for p, t in I.leaves(f["t"]) if f.get("rec") else [((), f["t"])]:
                if p and (p[-1] in ("fragment_size_",) or t == "wsrep::streaming_context::fragment_unit"):
                    continue            # settings of the session
                self.leaf.append(((n,) + p, t, f))
            if f.get("rec"):
                self.rec.append(f)
        # counters and containers are not tracked: the writes to them are
        self.seen = [p for p, t, f in self.leaf if p not in TRX_POLICY and
                     (t.startswith("std::") or p[0] == "streaming_context_")]
        self.watch = tuple({p[-1] for p in self.seen})
        self.policy = {p: "call" for p, t, f in self.leaf if p not in TRX_POLICY and p not in self.seen}
        for k in ("flags_", "implicit_deps_"):
            if (k,) in self.policy:
                self.policy[(k,)] = "keep"

    def on_call(self, I, st, ev):
        pass

    def on_begin(self, I, st, ev):
        st.mon.pop("lo", None)

    def on_hook(self, I, st, ev):
        if I.world.active(st):
            st.mon.pop("lo", None)

    def on_write(self, I, st, ev):
        if ev.obj[:2] == T and ev.obj[2:] in self.seen:
            b = 1 << self.seen.index(ev.obj[2:])
            v = I.norm(st, ev.args[1])
            m = st.mon.get("lo", 0)
            m = m | b if v == "EMPTY" or v == 0 else m & ~b
            if m:
                st.mon["lo"] = m
            else:
                st.mon.pop("lo", None)

    def default(self, I, p, f):
        """value of the leaf in a default constructed object"""
        if not f.get("rec"):
            return 0
        d = self.__dict__.setdefault("dflt", {})
        if f["name"] not in d:
            from interp import St
            c = [g for g in I.P.by_name.get("%s::%s" % (f["t"], f["t"].split("::")[-1]), ()) if not g.params]
            if len(c) != 1:
                d[f["name"]] = None     # compiler generated: members by themselves
            else:
                r = I.run(c[0], St(), ("p", ("DEF",)), [])
                d[f["name"]] = r[0][1] if len(r) == 1 else None
        s = d[f["name"]]
        v = s.get(("DEF",) + p[1:]) if s is not None else None
        return I.norm(s, v) if v is not None else "EMPTY"

    def on_end(self, I, st, ev):
        for p, t, f in self.leaf:
            if p in self.seen:
                self.note(I, "leaf", ".".join(p))
                if not st.mon.get("lo", 0) >> self.seen.index(p) & 1:
                    self.bad(I, st, p, ev)
                continue
            v = st.get(T + p)
            if v is None:
                # not touched since the call began
                self.bad(I, st, p, ev)
                continue
            v = I.norm(st, v)
            w = self.default(I, p, f)
            if type(w) is not int:
                ok = v == w or v == "EMPTY" or w == U
            else:
                ok = I.must(st, v, w)
            self.note(I, "leaf", ".".join(p))
            if not ok:
                self.bad(I, st, p, ev, v)
        st.mon.pop("lo", None)

    def bad(self, I, st, p, ev, v=None):
        self.report(I, st, "%s of the transaction (%s) left over when it is over" % (
            self.NAME.get(p[0], "data"), ".".join(p)))


class LastWritten(Mon):
    """C31: the session's last written position is that of its last ordered write set"""
    prop, rule = "C31", "last written"
    kinds = ("write", "begin", "end")
    watch = ("seqno_",)
    SEQ = T + ("ws_meta_", "gtid_", "seqno_", "seqno_")
    LAST = ("C", "last_written_gtid_", "seqno_", "seqno_")

    def on_begin(self, I, st, ev):
        st.mon.pop("lw", None)

    def on_write(self, I, st, ev):
        if ev.obj == self.SEQ:
            old, new = ev.args
            if I.must(st, new, N_UNDEF):
                if type(old) is tuple and I.must(st, I.cmp(st, ">", old, N_UNDEF), 1):
                    st.mon["lw"] = I.norm(st, old)
            else:
                st.mon.pop("lw", None)
        elif ev.obj == self.LAST:
            if any(f.name == CSN + "open" for f, l in I.stack):
                return          # a new session has written nothing
            self.note(I, "last written", I.where())
            cur = I.norm(st, I.read(st, self.SEQ, "long"))
            v = I.norm(st, ev.args[1])
            if v not in (cur, st.mon.get("lw")) or v == U:
                self.report(I, st, "last written position is not that of the transaction's write set",
                            up=("operator=", "update_last_written_gtid"))

    def on_end(self, I, st, ev):
        op = st.mon.pop("lw", None)
        if op is not None and I.norm(st, I.read(st, self.LAST, "long")) != op:
            self.report(I, st, "an ordered transaction ends without becoming the session's last written position")


class ClientStates(Mon):
    """C29"""
    prop, rule = "C29", "session state and mode diagrams"
    kinds = ("write",)
    watch = ("state_", "mode_")

    def on_write(self, I, st, ev):
        W = I.world
        if ev.obj == ("C", "state_"):
            tab, names = spec.CLIENT, W.CST
        elif ev.obj == ("C", "mode_"):
            tab, names = spec.MODE, W.MODE
        else:
            return
        inv = {v: k for k, v in names.items()}
        if any(f.name.endswith("client_state::client_state") for f, l in I.stack):
            return
        old = I.values(st, ev.args[0]) if ev.args[0] is not None else None
        new = I.values(st, ev.args[1])
        for o in old or inv:
            for n in new or inv:
                self.note(I, "transition", "%s -> %s" % (inv.get(o), inv.get(n)))
                if inv.get(n) not in tab.get(inv.get(o), ()):
                    self.report(I, st, "session %s %s -> %s" % (ev.obj[1].rstrip("_"), inv.get(o), inv.get(n)))
                if not I.held(st, ("Cm",)):
                    self.report(I, st, "session %s written without holding the session mutex" % ev.obj[1].rstrip("_"))


def run(ctx, mons, configs, policy=None, jobs=None):
    """close the session under its protocol for each configuration, with the monitors attached."""
    R = None
    for cfg in configs:
        P = ctx.program()
        pol = {}
        for m in mons:
            pol.update({T + k: v for k, v in m.policy.items()})
        pol.update(policy or {})
        W = LocalSession(P, policy_extra=pol, rollback_modes=cfg.get("modes", (0, 1)))
        W.xa = cfg.get("xa", False)
        W.implicit = cfg.get("implicit", False)
        W.streaming = cfg.get("sr", False)
        W.keep_cmd = cfg.get("keep", False)
        for m in mons:
            W.I.watch |= set(m.watch)
            W.I.add_monitor(m)
            if hasattr(m, "install"):
                m.install(W)
        R = explore(W, jobs=jobs)
        ctx.take(R)
        ctx.count("configurations")
    return R


FULL = [dict(xa=True, sr=True, keep=True)]
BASE = [dict(keep=True)]
SR = [dict(sr=True, keep=True)]
XA = [dict(xa=True, keep=True)]
