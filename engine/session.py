"""Most general client of one local session."""
from world import *

CSN = "wsrep::client_state::"


class LocalSession(World):
    """Every sequence of hooks a DBMS may issue for one session.

    mon['ph'] is the position in the hook protocol."""
    xa = True
    streaming = True
    keep_cmd = True

    def succ(self, st):
        """all protocol-conforming next calls from top state st: [(label, [states])]"""
        ph = st.mon["ph"]
        return getattr(self, "ph_" + ph)(st)

    def go(self, st, name, ok, err=None, args=(), nparams=None, ptypes=None):
        out = []
        for r, s in self.api(st.copy(), name, args, nparams, ptypes=ptypes):
            if r is None or r == 0 or err is None:
                s.mon["ph"] = ok
                s.mon["#ret"] = r
                out.append(s)
            if r is not None and r != 0 and err is not None:
                s.mon["ph"] = err
                out.append(s)
        for s in out:
            s.mon.pop("#ret", None)
        return out

    def to(self, st, ph):
        x = st.copy()
        x.mon["ph"] = ph
        return [x]

    def ph_closed(self, st):
        return self.go(st, CSN + "open", "idle")

    def ph_idle(self, st):
        out = []
        if st.mon.get("#bg"):
            out += self.rollbacker(st.copy())
        elif self.active(st):
            x = st.copy()
            x.mon["#held"] = frozenset((("Cm",),))
            for y in self.bf_abort(self.I, x):
                y.mon["#held"] = EMPTYFS
                out.append(y)
        for keep in ((0, 1) if self.keep_cmd else (0,)):
            for x in self.go(st, CSN + "before_command", "cmd", "cmderr", args=(keep,)):
                if x.mon["ph"] == "cmd" and self.active(x) and \
                        self.tstates(x) & {self.s("s_aborted"), self.s("s_must_abort")}:
                    x.mon["ph"] = "cmderr"
                out.append(x)
        out += self.go(st, CSN + "close", "quit")
        return out

    def ph_quit(self, st):
        out = []
        if self.active(st):
            # prepared XA: the DBMS detaches it
            if self.tstates(st) == {self.s("s_prepared")}:
                for x in self.go(st, CSN + "xa_detach", "quit2"):
                    out += self.go(x, CSN + "cleanup", "end", nparams=0)
            return out
        return self.go(st, CSN + "cleanup", "end", nparams=0)

    def ph_end(self, st):
        return []

    def ph_cmd(self, st):
        # a command that has failed issues no further statements
        out = self.go(st, CSN + "after_command_before_result", "result")
        if self.I.must(st, st.get(("C", "current_error_")), 0):
            out += self.go(st, CSN + "before_statement", "stmt", "stmterr")
        return out

    def ph_cmderr(self, st):
        return self.go(st, CSN + "after_command_before_result", "result")

    def ph_stmterr(self, st):
        return self.go(st, CSN + "after_command_before_result", "result") + \
            self.go(st, CSN + "after_statement", "cmd")

    def ph_result(self, st):
        return self.go(st, CSN + "after_command_after_result", "idle")

    def ph_stmt(self, st):
        s = self.s
        out = []
        if not self.active(st):
            if not st.mon.get("#ended"):
                x = st.copy()
                x.put(("trxid", "id_"), self.I.sym(x, ("trxid",), ("I", 1, INF, EMPTYFS)))
                for y in self.go(x, CSN + "start_transaction", "stmt", "err", args=(("l", ("trxid",)),)):
                    if y.mon["ph"] == "stmt":
                        out.append(y)
                        if getattr(self, "implicit", False):
                            z = y.copy()
                            for k, z, v in self.I.run(self.P.fn("wsrep::transaction::implicit_deps", 1), z, ("p", T), [1]):
                                out.append(z)
                        if self.xa:
                            z = y.copy()
                            z.put(("xid", "format_id_"), self.I.sym(z, ("xid",), ("I", 1, INF, EMPTYFS)))
                            out += self.go(z, CSN + "assign_xid", "stmt", args=(("l", ("xid",)),))
                    else:
                        out.append(y)
            out += self.to(st, "done")
            return out
        ts = self.tstates(st)
        if self.streaming and ts <= {s("s_executing")} and \
                self.I.must(st, st.get(T + ("streaming_context_", "fragment_size_")), 0):
            out += self.go(st, CSN + "enable_streaming", "stmt", args=(U, 1))
        if self.streaming and ts <= {s("s_executing")} and \
                not self.I.may(st, st.get(T + ("streaming_context_", "fragments_certified_")), 0) and \
                not self.I.may(st, st.get(T + ("streaming_context_", "fragment_size_")), 0):
            # the user turns streaming off: what was replicated stays replicated
            out += self.go(st, CSN + "disable_streaming", "stmt", args=())
        if ts <= {s("s_executing"), s("s_must_abort")}:
            out += self.go(st, CSN + "after_row", "stmt", "err")
            out += self.go(st, CSN + "before_prepare", "prepd1", "err", nparams=1)
            out += self.go(st, CSN + "before_commit", "cmt", "err", nparams=1)
            out += self.to(st, "err")
            out += self.to(st, "done")
        elif ts <= {s("s_prepared")}:
            out += self.go(st, CSN + "before_commit", "cmt", "err", nparams=1)
            out += self.to(st, "err")
            out += self.to(st, "done")
        else:
            out += self.to(st, "done")
        return out

    def is_xa(self, st):
        return not self.I.must(st, st.get(T + ("xid_", "format_id_")), N_UNDEF)

    def ph_prepd1(self, st):
        out = self.go(st, CSN + "after_prepare", "done" if self.is_xa(st) else "prepd", "err")
        out += self.to(st, "err")
        return out

    def ph_prepd(self, st):
        return self.go(st, CSN + "before_commit", "cmt", "err", nparams=1)

    def ph_cmt(self, st):
        return self.go(st, CSN + "ordered_commit", "cmt2", "dead")

    def ph_cmt2(self, st):
        return self.go(st, CSN + "after_commit", "done", "done")

    def ph_dead(self, st):
        return []

    ROLLBACK_OK = ("s_executing", "s_preparing", "s_prepared", "s_must_abort", "s_aborting",
                   "s_cert_failed", "s_must_replay")

    def ph_err(self, st):
        s = self.s
        out = []
        ts = self.tstates(st)
        if self.active(st) and ts <= {s(x) for x in self.ROLLBACK_OK}:
            for x in self.go(st, CSN + "before_rollback", "rb"):
                out.append(x)
        if ts <= {s("s_executing"), s("s_must_abort"), s("s_cert_failed"), s("s_must_replay"), s("s_prepared"),
                  s("s_aborted")}:
            out += self.to(st, "done")
        return out

    def ph_rb(self, st):
        return self.go(st, CSN + "after_rollback", "done")

    def ph_done(self, st):
        return self.go(st, CSN + "after_statement", "cmd")

    # initial top states (phase set)
    def start(self):
        out = []
        for st in self.init():
            st.mon["ph"] = "closed"
            out.append(st)
        return out

if __name__ == "__main__":
    import collections
    import sys
    import time
    t = time.time()
    P = ir.load_core()
    W = LocalSession(P)
    W.xa = "xa" in sys.argv
    W.streaming = "sr" in sys.argv
    W.keep_cmd = "keep" in sys.argv
    if "async" in sys.argv:
        W.rollback_modes = (0,)
    if "sync" in sys.argv:
        W.rollback_modes = (1,)
    from explore import explore
    R = explore(W)
    seen = R.top
    print(len(seen), "states", R.steps, "%.1fs" % (time.time() - t))
    cnt = collections.Counter((s.mon["ph"], tuple(W.STN[v] for v in W.tstates(s))) for s in seen.values())
    for k, v in sorted(cnt.items()):
        print(k, v)
