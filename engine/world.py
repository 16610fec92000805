"""The environment of the library: objects, interface contracts and the most general client.

A DBMS uses one client_state per session.  `World` builds a session (object C, with C.transaction_),
a server (S), a provider (P) and the service objects by analysing the real constructors, and
`explore` closes the set of abstract session states under every API call the documented hook
protocol allows.  A concurrent BF aborter is modelled by analysing the library's own
bf_abort()/total_order_bf_abort() at every point where the session's mutex is (re)acquired.
"""
import ir
from interp import Interp, St, Ev, U, is_sym, EMPTY_CONTENT, INF, EMPTYFS, Limit, Monitor, c_refine
from ir import AnalysisBroken

T = ("C", "transaction_")

# paths (relative to C) that stay precise between API calls and how they are widened
TRX_POLICY = {
    ("state_",): "keep", ("bf_abort_client_state_",): "nz", ("bf_aborted_in_total_order_",): "keep",
    ("certified_",): "keep", ("is_bf_immutable_",): "keep", ("streaming_rollback_in_progress_",): "keep",
    ("id_", "id_"): "def", ("ws_meta_", "gtid_", "seqno_", "seqno_"): "def",
    ("streaming_context_", "fragments_certified_"): "nz",
    ("streaming_context_", "fragment_size_"): "nz",
    ("streaming_context_", "fragment_unit_"): "drop",
    ("streaming_context_", "rollback_replicated_for_", "id_"): "def",
    ("xid_", "format_id_"): "def",
    ("server_service_",): "keep", ("client_service_",): "keep", ("client_state_",): "keep",
}
CS_POLICY = {
    ("state_",): "keep", ("mode_",): "keep", ("rollbacker_active_",): "keep",
    ("current_error_",): "err", ("keep_command_error_",): "keep",
    ("mutex_",): "keep", ("cond_",): "keep", ("server_state_",): "keep", ("client_service_",): "keep",
    ("toi_mode_",): "keep",
}
SERVER_FNS = ("start_streaming_client", "stop_streaming_client", "convert_streaming_client_to_applier",
              "send_pending_rollback_events", "queue_rollback_event", "find_streaming_applier",
              "stop_streaming_applier", "start_streaming_applier", "on_apply", "causal_read",
              "desync_and_pause", "resume_and_resync", "desync", "resync", "pause", "resume")
N_UNDEF = -1


def _depth(frames):
    n = 0
    while frames is not None:
        frames = frames[0]
        n += 1
    return n


class World:
    def __init__(self, P, policy_extra=None, rollback_modes=(0, 1)):
        self.P = P
        self.I = Interp(P)
        self.I.world = self
        self.ST = P.enum("wsrep::transaction::state")
        self.STN = {v: k.split("::")[-1] for k, v in self.ST.items()}
        self.CST = P.enum("wsrep::client_state::state")
        self.MODE = P.enum("wsrep::client_state::mode")
        self.PST = P.enum("wsrep::provider::status")
        self.ERR = P.enum("wsrep::client_error")
        self.policy = dict((("C",) + k, v) for k, v in CS_POLICY.items())
        self.policy.update(dict((T + k, v) for k, v in TRX_POLICY.items()))
        for k in ("server_service_", "mutex_", "cond_", "provider_", "rollback_mode_"):
            self.policy[("S", k)] = "keep"
        self.policy.update(policy_extra or {})
        self.I.keep = {k for k, v in self.policy.items() if v != "drop"}
        self.rollback_modes = rollback_modes
        for m in SERVER_FNS:
            fs = P.by_name.get("wsrep::server_state::" + m)
            if not fs:
                raise AnalysisBroken("anchor vanished: wsrep::server_state::%s" % m)
            for g in fs:
                self.I.no_inline.add(g.key)
        self.bf_fns = [P.fn("wsrep::client_state::bf_abort", 2),
                       P.fn("wsrep::client_state::total_order_bf_abort", 2)]
        self.interference = True
        self._noop = set()
        self.install_models()

    # short names of enum constants
    def s(self, name):
        return self.ST[name]

    # ------------------------------------------------------------ contracts
    def install_models(self):
        I = self.I
        M = I.models
        M["wsrep::client_service::bf_rollback"] = self.m_bf_rollback
        M["wsrep::client_service::replay"] = self.m_replay
        M["wsrep::client_service::wait_for_replayers"] = self.m_relock
        M["wsrep::condition_variable::wait"] = self.m_wait
        M["wsrep::provider::certify"] = self.m_certify
        M["wsrep::server_service::background_rollback"] = self.m_background
        M["wsrep::provider::commit_order_enter"] = self.m_commit_order_enter
        M["wsrep::client_service::emergency_shutdown"] = self.m_shutdown
        for f in ("is_explicit_xa", "is_xa_rollback", "is_prepared_xa"):
            M["wsrep::client_service::" + f] = self.m_xa
        M["wsrep::provider::bf_abort"] = self.m_prov_bf_abort
        M["wsrep::client_service::prepare_fragment_for_replication"] = self.m_prepare_fragment
        I.on_acquire = self.on_acquire

    def opaque(self, st, c):
        return self.I.opaque(c.fn, st, c.node, c.obj, c.args, [])

    def m_bf_rollback(self, I, st, c):
        """contract: the DBMS rolls back, calling before_rollback() and after_rollback()."""
        I.emit(st, Ev("call", c.cname, I.objloc(st, c.node, c.obj), (), None, c.node, I))
        st.log("%s:%d bf_rollback()" % (c.fn.short(), c.node["l"]))
        out = []
        for r1, s1 in self.api(st, "wsrep::client_state::before_rollback"):
            for r2, s2 in self.api(s1, "wsrep::client_state::after_rollback"):
                x = s2.copy()
                out.append((s2, 0))
                out.append((x, 1))
        return out

    def m_replay(self, I, st, c):
        """contract: success leaves the transaction replaying (other client state was used) or
        committed; any failure leaves it replaying."""
        out = []
        ps = self.PST
        from interp import Ev as E
        for name, val in ps.items():
            x = st.copy()
            x.log("%s:%d replay() -> %s" % (c.fn.short(), c.node["l"], name.split("::")[-1]))
            I.emit(x, E("call", c.cname, ("CS",), (), val, c.node, I))
            nm = name.split("::")[-1]
            if nm == "success":
                y = x.copy()
                y.put(T + ("state_",), self.s("s_committed"))
                y.mon["#replayed_in_place"] = 1
                out.append((y, val))
                out.append((x, val))
            elif nm in ("error_certification_failed", "error_unknown"):
                out.append((x, val))
        return out

    def m_relock(self, I, st, c):
        """releases and re-acquires the lock it is given."""
        lk = c.args[0]
        m = ("Cm",)
        if type(lk) is tuple and lk[0] == "l":
            mm = st.get(lk[1] + ("#m",))
            if type(mm) is tuple:
                m = mm[1]
        I.emit(st, Ev("call", c.cname, I.objloc(st, c.node, c.obj), tuple(c.args), None, c.node, I))
        I.unlock(st, m)
        return [(x, U) for x in I.lock(st, m)]

    def m_wait(self, I, st, c):
        lk = c.args[0]
        mm = st.get(lk[1] + ("#m",)) if type(lk) is tuple and lk[0] == "l" else None
        m = mm[1] if type(mm) is tuple else ("Cm",)
        I.emit(st, Ev("wait", c.cname, I.objloc(st, c.node, c.obj), (m,), None, c.node, I))
        I.unlock(st, m)
        if m == ("Cm",) and st.mon.get("#bf"):
            # the aborter sleeps until its victim has finished what it is in the middle of: the
            # victim goes on first
            st.log("-- BF aborter waits for its victim --")
            self._susp.append(st)
            return []
        states = [st]
        if m == ("Cm",):
            if st.mon.get("#bg"):
                # the background rollbacker gets the session and finishes
                stack, I.stack = I.stack, []
                try:
                    states = self.rollbacker(st)
                finally:
                    I.stack = stack
            for x in states:
                x.put(T + ("streaming_rollback_in_progress_",), 0)
        out = []
        for s in states:
            out.extend((x, U) for x in I.lock(s, m))
        return out

    def rollbacker(self, st):
        """the DBMS's background rollbacker: rolls the idle victim back and hands the session back."""
        st.log("-- background rollbacker --")
        st.mon["#actor"] = "rb"
        out = []
        if self.tstates(st) == {self.s("s_must_replay")}:
            seq = [("wsrep::client_state::before_rollback", None), ("wsrep::client_state::after_rollback", None),
                   ("wsrep::client_state::xa_replay", None)]
        else:
            seq = [("wsrep::client_state::before_rollback", None), ("wsrep::client_state::after_rollback", None)]
        seq.append(("wsrep::client_state::sync_rollback_complete", None))
        cur = [st]
        for name, n in seq:
            nxt = []
            for x in cur:
                for r, y in self.api(x, name):
                    nxt.append(y)
            cur = nxt
        for x in cur:
            x.mon.pop("#bg", None)
            x.mon.pop("#actor", None)
            x.log("-- rollbacker done --")
        return cur

    def m_background(self, I, st, c):
        I.emit(st, Ev("call", c.cname, ("SS",), tuple(c.args), None, c.node, I))
        st.mon["#bg"] = 1
        st.log("background_rollback()")
        return [(st, U)]

    def m_certify(self, I, st, c):
        """contract of provider::certify (provider.hpp): success => the write set is ordered;
        bf_abort / certification failure => it may or may not have been ordered; otherwise the
        meta data is left unordered."""
        a = c.args[3]
        loc = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
        out = []
        for name, val in sorted(self.PST.items(), key=lambda x: x[1]):
            nm = name.split("::")[-1]
            if nm == "success":
                variants = ("ord",)
            elif nm in ("error_bf_abort", "error_certification_failed"):
                variants = ("ord", "un")
            else:
                variants = ("un",)
            for v in variants:
                x = st.copy()
                if loc is not None:
                    for p, tt in I.leaves("wsrep::ws_meta"):
                        if p[-1] == "seqno_" and p[0] == "gtid_":
                            if v == "ord":
                                x.put(loc + p, I.sym(x, ("cert", loc + p), ("I", 1, INF, EMPTYFS)))
                            else:
                                x.put(loc + p, N_UNDEF)
                        elif v == "ord":
                            x.clear(loc + p)
                x.log("%s:%d provider.certify() -> %s%s" % (c.fn.short(), c.node["l"], nm,
                                                          "" if nm == "success" else " (%s)" % v))
                I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args) + (loc,), val, c.node, I))
                out.append((x, val))
        return out

    def m_commit_order_enter(self, I, st, c):
        """a local transaction that was ordered either enters or was BF aborted by the provider;
        an applier may also meet other failures."""
        out = []
        local = I.must(st, st.get(("C", "mode_")), self.MODE["m_local"])
        for nm in ("success", "error_bf_abort") + (() if local else ("error_connection_failed",)):
            x = st.copy()
            x.log("%s:%d provider.commit_order_enter() -> %s" % (c.fn.short(), c.node["l"], nm))
            I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args), self.PST[nm], c.node, I))
            if nm == "success":
                x.mon["#co"] = 1
            out.append((x, self.PST[nm]))
        return out

    def m_prov_bf_abort(self, I, st, c):
        """a transaction that has entered its commit order critical section cannot be BF aborted."""
        x = st.copy()
        I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args), self.PST["error_not_allowed"], c.node, I))
        out = [(x, self.PST["error_not_allowed"])]
        if not st.mon.get("#co"):
            I.emit(st, Ev("call", c.cname, ("P",), tuple(c.args), self.PST["success"], c.node, I))
            out.append((st, self.PST["success"]))
        return out

    def m_prepare_fragment(self, I, st, c):
        """contract: the XA prepare fragment always carries data; other fragments may turn out empty."""
        out = []
        xa = not I.must(st, I.read(st, T + ("xid_", "format_id_"), "long"), N_UNDEF)
        loc = c.args[0][1] if type(c.args[0]) is tuple and c.args[0][0] in ("l", "p") else None
        for x, v in self.opaque(st, c):
            if xa and loc is not None:
                x.clear(loc)
                ct = I.sym(x, ("ct", "prepare_fragment"), ("I", INF, INF, EMPTYFS))
                x.put(loc + (self.P.field_of("wsrep::mutable_buffer", "std::vector<char"),), ct)
                I.atom(x, ("size", ct), ("I", 1, INF, EMPTYFS))
            out.append((x, v))
        return out

    def m_shutdown(self, I, st, c):
        """emergency_shutdown() ends the process: the history stops here."""
        st.log("emergency_shutdown()")
        I.emit(st, Ev("call", c.cname, ("CS",), (), None, c.node, I))
        return []

    def m_xa(self, I, st, c):
        out = self._xa(I, st, c)
        for x, v in out:
            I.emit(x, Ev("call", c.cname, ("CS",), (), v, c.node, I))
        return out

    def _xa(self, I, st, c):
        xid = I.read(st, T + ("xid_", "format_id_"), "long")
        if I.must(st, xid, N_UNDEF):
            return [(st, 0)]
        prepared = I.must(st, st.get(T + ("state_",)), self.s("s_prepared"))
        nm = c.cname.split("::")[-1]
        if nm == "is_prepared_xa":
            return [(st, int(prepared))]
        if nm == "is_explicit_xa" and prepared:
            return [(st, 1)]
        if nm == "is_explicit_xa" and I.must(st, st.get(T + ("state_",)), self.s("s_aborted")) and \
                not I.may(st, I.read(st, T + ("ws_meta_", "gtid_", "seqno_", "seqno_"), "long"), N_UNDEF):
            # its commit was decided (replay failed): the XA transaction is over
            return [(st, 0)]
        return [(st, 0), (st.copy(), 1)]

    # ------------------------------------------------------------ interference
    def on_acquire(self, I, st, m):
        if m != ("Cm",) or not self.interference or st.mon.get("#bf") or st.mon.get("#noint"):
            return [st]
        if I.must(st, I.read(st, T + ("id_", "id_"), "unsigned long"), N_UNDEF):
            return [st]
        mode = st.get(("C", "mode_"))
        if not I.must(st, mode, self.MODE["m_local"]):
            if I.must(st, I.read(st, T + ("streaming_context_", "fragments_certified_"), "unsigned long"), 0):
                return [st]
        rec = st.store.get("C")
        key = (rec.key(), st.store["S"].key(), frozenset(st.mon.items()),
               frozenset((s, st.cons.get(s)) for s in rec.refs()[0]))
        if key in self._noop:
            return [st]
        r = self.bf_abort(I, st)
        if not r:
            self._noop.add(key)
        return [st] + r

    def bf_abort(self, I, st, which=(0, 1)):
        stack, I.stack = I.stack, [(f, l) for f, l in ()]
        line = I.cur_line
        outs = []
        try:
            for w in which:
                x = st.copy()
                x.mon["#bf"] = 1
                x.put(("BFL", "#m"), ("p", ("Cm",)))
                x.put(("BFL", "#o"), 1)
                x.put(("bfseqno", "seqno_"), U)
                x.log("-- concurrent %sBF abort --" % ("total order " if w else ""))
                self._susp = []
                depth = _depth(st.frames)
                I.emit(x, Ev("bf_enter", "bf_abort", None, (w, st), None, None, I))
                res = I.run(self.bf_fns[w], x, ("p", ("C",)), [("l", ("BFL",)), ("l", ("bfseqno",))])
                roots = set(st.store)
                for y in self._susp:
                    while _depth(y.frames) > depth:
                        parent, env, live = y.frames[:3]
                        y.frames, y.env, y.live = parent, dict(env), live
                    for r in [r for r in y.store if r not in roots and type(r) is tuple]:
                        del y.store[r]
                    if "#held" in st.mon:
                        y.mon["#held"] = st.mon["#held"]
                    else:
                        y.mon.pop("#held", None)
                    res.append(("ret", y, 1))
                self._susp = []
                for k, y, v in res:
                    if k != "ret":
                        continue
                    if not I.must(y, v, 0):
                        z = y.copy()
                        if I.assume(z, v, False):
                            I.emit(z, Ev("bf_leave", "bf_abort", None, (w, st), 0, None, I))
                    else:
                        I.emit(y, Ev("bf_leave", "bf_abort", None, (w, st), 0, None, I))
                        continue
                    if not I.assume(y, v, True):
                        continue
                    I.emit(y, Ev("bf_leave", "bf_abort", None, (w, st), 1, None, I))
                    y.mon.pop("#bf", None)
                    y.clear(("BFL",))
                    y.clear(("bfseqno",))
                    y.log("-- BF abort done --")
                    outs.append(y)
        finally:
            I.stack = stack
            I.cur_line = line
        return outs

    # ------------------------------------------------------------ API calls
    def api(self, st, name, args=(), nparams=None, this=("p", ("C",)), ptypes=None):
        """analyse an API function; returns [(0/1 or None, state)]"""
        key = (name, nparams, ptypes)
        f = self._fncache.get(key) if hasattr(self, "_fncache") else None
        if f is None:
            if not hasattr(self, "_fncache"):
                self._fncache = {}
            f = self.P.fn(name, nparams if nparams is not None else (len(args) if args else None), ptypes)
            self._fncache[key] = f
        st.log(">> %s" % name.replace("wsrep::", ""))
        act0 = self.active(st)
        self._nest = getattr(self, "_nest", 0) + 1
        try:
            return self._api(f, st, name, args, this, act0)
        finally:
            self._nest -= 1

    def _api(self, f, st, name, args, this, act0):
        args = list(args)
        for i in range(len(args), len(f.params)):
            p = f.params[i]
            args.append(("l", ("arg%d" % i,)) if p.get("ref") else (0 if p["t"].endswith("*") else U))
        out = []
        for k, s, v in self.I.run(f, st, this, args):
            if k == "exc":
                self.on_escape(f, s, v)
                continue
            if v is None or v == U:
                out.append((None, s))
                continue
            d = self.I.decide(s, v)
            if d is None:
                y = s.copy()
                if self.I.assume(s, v, True):
                    out.append((1, s))
                if self.I.assume(y, v, False):
                    out.append((0, y))
            else:
                out.append((int(d), s))
        sn = name.split("::")[-1]
        for r, s in out:
            act1 = self.active(s)
            if act1 and not act0:
                self.I.emit(s, Ev("begin", sn, None, (r,), r, None, self.I))
            s.log("<< %s = %s" % (sn, r))
            self.I.emit(s, Ev("hook", sn, None, (r,), r, None, self.I))
            if act0 and not act1 and not s.mon.pop("#endseen", None):
                self.I.emit(s, Ev("end", sn, None, (r,), r, None, self.I))
            if act0 and not act1 and self._nest > 1:
                s.mon["#endseen"] = 1
        return out

    def on_escape(self, f, st, exc):
        self.I.emit(st, Ev("escape", f.name, None, (exc,), None, None, self.I))

    # ------------------------------------------------------------ canonical top states
    def canon(self, st):
        I = self.I
        x = St()
        x.mon = {k: v for k, v in st.mon.items() if k not in ("#held", "#replayed_in_place")}
        if not self.active(st):
            x.mon.pop("#co", None)
        x.trace = st.trace
        ren = {}

        def put(loc, v):
            v = I.norm(st, v)
            pol = self.policy.get(loc)
            if pol is None:
                return
            if pol == "nz":
                if type(v) is int:
                    v = 0 if v == 0 else "NZ"
                elif is_sym(v):
                    d = I.decide(st, v)
                    v = "NZ" if d else (0 if d is False else None)
                else:
                    v = None
                if v == "NZ":
                    sid = ("f", loc)
                    x.cons[sid] = ("I", 1, INF, EMPTYFS)
                    x.put(loc, ("s", sid, 0))
                elif v == 0:
                    x.put(loc, 0)
                return
            if pol == "def":
                if I.must(st, v, N_UNDEF):
                    x.put(loc, N_UNDEF)
                elif not I.may(st, v, N_UNDEF):
                    sid = ("f", loc)
                    x.cons[sid] = ("I", 1, INF, EMPTYFS)
                    x.put(loc, ("s", sid, 0))
                return
            if pol in ("drop", "call"):
                return
            if pol == "cont":
                if v == EMPTY_CONTENT:
                    x.put(loc, v)
                return
            if pol == "err":
                # success / deadlock / other
                vs = I.values(st, v)
                if vs is not None and len(vs) == 1 and next(iter(vs)) in (0, self.ERR["e_deadlock_error"]):
                    x.put(loc, next(iter(vs)))
                elif vs is not None and 0 not in vs and self.ERR["e_deadlock_error"] not in vs:
                    sid = ("f", loc)
                    x.cons[sid] = ("S", frozenset(self.ERR.values()) - {0, self.ERR["e_deadlock_error"]})
                    x.put(loc, ("s", sid, 0))
                return
            if is_sym(v):
                if v[1] not in ren:
                    ren[v[1]] = ("f", loc)
                    x.cons[("f", loc)] = st.cons.get(v[1], ("I", INF, INF, EMPTYFS))
                x.put(loc, ("s", ren[v[1]], v[2]))
            elif type(v) is tuple and v[0] in ("cmp", "not"):
                sid = ("f", loc)
                x.cons[sid] = ("S", frozenset((0, 1)))
                x.put(loc, ("s", sid, 0))
            elif v == U:
                return
            else:
                x.put(loc, v)
        for root in ("C", "S"):
            r = st.store.get(root)
            if r is None:
                continue
            for p in sorted(r.d, key=repr):
                put((root,) + p, r.d[p])
        return x

    def init(self):
        """the session right after construction, for each rollback mode."""
        out = []
        for rm in self.rollback_modes:
            st = St()
            st.put(("S", "server_service_"), ("l", ("SS",)))
            st.put(("S", "mutex_"), ("l", ("Sm",)))
            st.put(("S", "cond_"), ("l", ("Sc",)))
            st.put(("S", "provider_"), ("p", ("P",)))
            st.put(("S", "rollback_mode_"), rm)
            f = self.P.fn("wsrep::client_state::client_state", 6)
            args = [("l", ("Cm",)), ("l", ("Cc",)), ("l", ("S",)), ("l", ("CS",)), ("l", ("cid",)),
                    self.mode("m_local")]
            r = self.I.run(f, st, ("p", ("C",)), args)
            if len(r) != 1:
                raise AnalysisBroken("client_state constructor: %d outcomes" % len(r))
            out.append(r[0][1])
        return out

    def mode(self, n):
        return self.MODE[n]

    def cst(self, n):
        return self.CST[n]

    def trx_state(self, st):
        v = self.I.norm(st, st.get(T + ("state_",)))
        return v

    def tstates(self, st):
        return self.I.values(st, self.I.read(st, T + ("state_",), "wsrep::transaction::state"))

    def active(self, st):
        v = st.get(T + ("id_", "id_"))
        return not self.I.must(st, v, N_UNDEF)
