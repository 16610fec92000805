"""Streaming transactions whose originator is gone, or that are closed with the connection; the registries of
streaming clients and appliers."""
from interp import Monitor, U
from orphans import Orphans, HPSV, SSV, SRV, CLN, VIEW, HPS, END
from explore import explore
from ir import AnalysisBroken

WORK = ("rollback", "after_apply", "commit", "remove_fragments", "adopt_transaction", "apply_write_set",
        "append_fragment_and_commit", "log_dummy_write_set")


class OrphanMon(Monitor):
    kinds = ("call", "cont")
    watch = ()
    on_ = False

    def __init__(self, prop):
        self.prop = prop

    def rep(self, I, st, rule, msg, where=None):
        I.report(self.prop, rule, st, msg, where=where)

    def note(self, I, k, v):
        I.notes.setdefault(k, set()).add(v)

    # the machine's own rules are checked elsewhere
    def begin(self, W, st, name):
        pass

    def done(self, *a):
        pass

    def stuck(self, *a):
        pass

    def misuse(self, I, st, what):
        self.rep(I, st, "streaming registry", what)

    def bump(self, m, k):
        m[k] = min(m.get(k, 0) + 1, 2)
        return m[k]

    def on(self, I, st, ev):
        m = st.mon
        if not self.on_:
            return
        W = I.world
        if ev.kind == "cont":
            if ev.name == "erase" and type(ev.args) is tuple and len(ev.args) == 2:
                self.bump(m, "#er" + ev.args[1])
                self.note(I, "registry change", "%s erased at %s" % (ev.args[0], I.where()))
            elif ev.name == "insert":
                self.note(I, "registry change", "%s inserted at %s" % (ev.args[0], I.where()))
            return
        n = ev.name
        sh = n.split("::")[-1]
        if n == SSV + "release_high_priority_service":
            a = ev.args[0]
            o = a[1] if type(a) is tuple and a[0] in ("p", "l") else None
            t = self.tok(o)
            if t is None:
                self.rep(I, st, "closing", "another service than a streaming applier is released")
                return
            self.note(I, "release", I.where())
            if self.bump(m, "#rel" + t) > 1:
                self.rep(I, st, "closing", "streaming applier released twice")
            if t in (W.elements(st, "applier") or ()):
                self.rep(I, st, "closing", "streaming applier released while it is still registered")
            m["#cur"] = None
            return
        if n == CLN + "total_order_bf_abort":
            t = ev.obj[0][1:] if type(ev.obj[0]) is str else "?"
            self.note(I, "client abort", I.where())
            if I.held(st, ("Sm",)):
                self.rep(I, st, "closing", "total_order_bf_abort called while holding the server mutex")
            if st.get(("C" + t, W.ctrx, W.tf["state"])) == W.TST["s_prepared"]:
                self.rep(I, st, "prepared transactions", "prepared transaction of a local client is aborted")
            if not (m.get("#own") == -1 or m.get("#em") == 1):
                self.rep(I, st, "orphans", "transaction of a local client is aborted although the node stayed in the "
                         "primary component")
            v = ev.args[0]
            sq = I.norm(st, I.read(st, v[1] + ("seqno_",), "long")) if type(v) is tuple and v[0] in ("l", "p") else \
                I.norm(st, v)
            if sq != m.get("#vs", (None,))[0]:
                self.rep(I, st, "closing", "local client is aborted at another position than the view's")
            if t in m.get("#going", ()):
                self.rep(I, st, "closing", "local client is aborted again instead of waiting until it is gone")
            self.bump(m, "#ab" + t)
            return
        if n == "wsrep::view::equal_membership":
            m["#em"] = ev.ret
            self.note(I, "membership test", I.where())
            return
        if n == "wsrep::view::is_member":
            self.note(I, "membership test", I.where())
            v = I.cell(st, ev.args[0]) if ev.args else None
            t = v[1][3:] if type(v) is tuple and v[0] == "k" and str(v[1]).startswith("sid") else None
            if t is None:
                self.rep(I, st, "orphans", "membership of another server than the transaction's originator is tested")
                return
            if W.vseq(st, ev.obj) != m.get("#vs"):
                self.rep(I, st, "orphans", "membership is tested in another view than the delivered one")
            m["#mem" + t] = ev.ret
            return
        if n == "wsrep::client_service::store_globals":
            m["#cur"] = "C"
            m["#sg"] = 1
            return
        if n.startswith(HPSV):
            self.hps(I, W, st, ev, sh)

    def tok(self, o):
        return o[0][1:] if o and type(o[0]) is str and o[0] in ("HA", "HB", "HN") else None

    def hps(self, I, W, st, ev, sh):
        m = st.mon
        o = ev.obj
        t = self.tok(o)
        if t is None and o != HPS:
            raise AnalysisBroken("%s called on an unknown service (%s)" % (sh, o))
        who = t or "H"
        if t and m.get("#rel" + t):
            self.rep(I, st, "closing", "released streaming applier is used")
        if sh == "store_globals":
            m["#cur"] = who
        elif sh == "reset_globals":
            if m.get("#cur") != who:
                self.rep(I, st, "execution context", "reset_globals of a service that is not current")
            m["#cur"] = None
        if sh not in WORK:
            return
        self.note(I, "callback site", "%s at %s" % (sh, I.where()))
        if t != "N" and m.get("#cur") != who:
            self.rep(I, st, "execution context", "%s called outside of the service's execution context" % sh)
        prim = m.get("#vst") == W.VST["primary"]
        if t:
            if sh == "rollback":
                if self.bump(m, "#rb" + t) > 1:
                    self.rep(I, st, "closing", "streaming applier rolled back twice")
                if prim and st.get(("H" + t, "#trx", W.tf["state"])) == W.TST["s_prepared"]:
                    self.rep(I, st, "prepared transactions", "prepared transaction is rolled back by a view")
                if prim and not (m.get("#em") == 1 or m.get("#mem" + t) == 0):
                    self.rep(I, st, "orphans", "transaction is rolled back although its originator may still be a member")
                if prim and m.get("#ad") != t:
                    self.rep(I, st, "fragments", "transaction is rolled back before its fragments are adopted")
            elif sh == "after_apply":
                if self.bump(m, "#aa" + t) > 1:
                    self.rep(I, st, "closing", "after_apply called twice for a streaming applier")
                if t != "N" and not m.get("#rb" + t):
                    self.rep(I, st, "closing", "after_apply called before rollback")
            elif sh == "adopt_transaction" and t == "N":
                self.adopted(I, W, st, ev, "C")
                m["#adN"] = ev.ret
            else:
                self.rep(I, st, "closing", "%s called for a closed streaming transaction" % sh)
            return
        # the view handler's own service
        if sh == "adopt_transaction":
            if m.get("#ad"):
                self.rep(I, st, "fragments", "transaction adopted before the previous one is finished")
            x = self.adopted(I, W, st, ev, "H")
            if not prim:
                self.rep(I, st, "fragments", "transaction adopted outside of a primary view")
            m["#ad"] = x
            m["#adr"] = ev.ret
            m.pop("#rm", None)
            m.pop("#cm", None)
            return
        if sh in ("remove_fragments", "commit"):
            if not prim:
                self.rep(I, st, "fragments", "fragments of an open transaction are removed on disconnect")
                return
            x = m.get("#ad")
            if x is None or m.get("#adr"):
                self.rep(I, st, "fragments", "%s called without an adopted transaction" % sh)
                return
            if I.held(st, ("Sm",)):
                self.rep(I, st, "fragments", "%s called while holding the server mutex" % sh)
            if sh == "remove_fragments":
                a = ev.args[0]
                got = [self.acc(W, st, "wsrep::ws_meta::" + f, a[1]) for f in ("server_id", "transaction_id")]
                if got != [("k", "sid" + x), ("k", "tid" + x)]:
                    self.rep(I, st, "fragments", "fragments of another transaction are removed")
                if self.bump(m, "#rm") > 1:
                    self.rep(I, st, "fragments", "fragments are removed twice")
            else:
                if not m.get("#rm"):
                    self.rep(I, st, "fragments", "commit before the fragments are removed")
                if self.bump(m, "#cm") > 1:
                    self.rep(I, st, "fragments", "fragment removal is committed twice")
        elif sh == "after_apply":
            if not m.get("#ad"):
                self.rep(I, st, "fragments", "after_apply without an adopted transaction")
            elif m.get("#adr") == 0 and not m.get("#cm"):
                self.rep(I, st, "fragments", "adopted transaction finished without removing its fragments")
            m.pop("#ad", None)
        elif sh == "rollback":
            pass
        else:
            self.rep(I, st, "closing", "%s called for a closed streaming transaction" % sh)

    def adopted(self, I, W, st, ev, who):
        a = ev.args[0]
        loc = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
        v = I.cell(st, ("l", loc + (W.tf["id"],))) if loc else None
        t = v[1][3:] if type(v) is tuple and v[0] == "k" and str(v[1]).startswith("tid") else None
        if t is None:
            self.rep(I, st, "fragments", "another transaction than the closed one is adopted")
        elif st.mon.get("#rel" + t):
            self.rep(I, st, "closing", "released streaming applier is used")
        return t

    def acc(self, W, st, name, loc):
        line = W.I.cur_line
        x = st.copy()
        r = [y for y in W.I.run(W.P.fn(name, 0), x, ("p", loc), []) if y[0] == "ret"]
        W.I.cur_line = line
        return W.I.norm(r[0][1], W.I.cell(r[0][1], r[0][2])) if len(r) == 1 else None

    # ------------------------------------------------------------ end of on_view
    def finish(self, W, st, k):
        I = W.I
        m = st.mon
        where = SRV + "on_view"
        if k == "exc":
            return
        if k is None:
            self.rep(I, st, "closing", "the view handler does not complete", where)
            return
        prim = m["#vst"] == W.VST["primary"]
        final = m["#vst"] != W.VST["primary"] and I.norm(st, st.get(VIEW + ("own_index_",))) == -1
        self.note(I, "view outcome", "%s view: %s" % ("primary" if prim else "final" if final else "non-primary", "".join(
            sorted("%s%s " % (t, m.get("#rb" + t, 0)) for t in "AB" if m["#apps"][("AB".index(t)):]))))
        left = W.elements(st, "applier")
        for t, prep in zip("AB", m["#apps"]):
            if prim:
                em, mem = m.get("#em"), m.get("#mem" + t)
                close = not prep and (em == 1 or mem == 0)
                if not prep and em != 1 and mem is None and t in left:
                    self.rep(I, st, "orphans", "a transaction is kept without testing that its originator is a member", where)
            else:
                close = final
            if not close:
                if t not in left:
                    self.rep(I, st, "prepared transactions" if prep else "orphans",
                             "streaming applier of a transaction that stays open is removed", where)
                if m.get("#rb" + t) or m.get("#rel" + t):
                    self.rep(I, st, "prepared transactions" if prep else "orphans",
                             "streaming transaction that stays open is rolled back", where)
                continue
            if t in left:
                self.rep(I, st, "closing", "streaming applier of a closed transaction stays registered", where)
            for key, what in (("#rb", "rolled back"), ("#aa", "finished"), ("#rel", "released")):
                if not m.get(key + t):
                    self.rep(I, st, "closing", "closed streaming transaction is not %s" % what, where)
        if m.get("#ad"):
            self.rep(I, st, "fragments", "adopted transaction is not finished", where)
        if m.get("#cur") != "H":
            self.rep(I, st, "execution context", "the view handler does not end in its own execution context", where)
        left = W.elements(st, "client")
        for t, prep in zip("CD", m["#clients"]):
            close = prim and not prep and (m["#own"] == -1 or m.get("#em") == 1)
            if close and (t in left or not m.get("#ab" + t)):
                self.rep(I, st, "orphans", "open transaction of a local client survives a view that closes it", where)
            if not close and t not in left:
                self.rep(I, st, "closing", "streaming client is removed by the view handler", where)


class Registry:
    """start, stop, find and convert, in every server state and with other transactions registered"""

    def __init__(self, W, mon):
        self.W, self.mon, self.I = W, mon, W.I

    def rep(self, st, msg, name):
        self.mon.rep(self.I, st, "streaming registry", msg, SRV + name)

    def base(self, state):
        W = self.W
        st = W.construct()
        st.mon = {"sbi": 0, "ini": 1, "w": None}
        W.seed(st)
        st.put(("S", W.statef), state)
        st.mon["#vst"] = None
        st.mon["#cur"] = "C"
        return st

    def applier_keys(self, st):
        """A: server 1, transaction 1; B: server 1, transaction 2; and one that shares only the transaction id"""
        W = self.W
        W.fill(st, (0, 0), ())
        for t, (a, b) in {"A": ("s1", "t1"), "B": ("s1", "t2")}.items():
            st.put(W.eloc("applier", t) + ("first", "first"), ("k", a))
            st.put(W.eloc("applier", t) + ("first", "second"), ("k", b))

    def call(self, st, name, args, **kw):
        self.mon.note(self.I, "registry call", name)
        self.W.full = True
        self.mon.on_ = True
        try:
            return self.W.api(st, name, args, **kw)
        finally:
            self.W.full = False
            self.mon.on_ = False

    def arg(self, st, root, val):
        st.put((root,), ("k", val))
        return ("l", (root,))

    def run(self):
        W, I = self.W, self.I
        for state in W.SST.values():
            self.clients(state)
            self.convert(state)
        self.appliers(W.s("s_synced"))

    def clients(self, state):
        W = self.W
        for fn in ("start_streaming_client", "stop_streaming_client"):
            st = self.base(state)
            W.fill(st, (), (0, 0))
            start = fn.startswith("start")
            if start:
                W.set_elements(st, "client", ("D",))
            for k, v, s in self.call(st, fn, (("p", ("CC",)),), nparams=1):
                els = W.elements(s, "client")
                ok = k == "ret"
                if start:
                    ok = ok and set(els) == {"D", "N"} and s.get(W.eloc("client", "N") + ("first",)) == ("k", "cidC") \
                        and s.get(W.eloc("client", "N") + ("second",)) == ("p", ("CC",))
                else:
                    ok = ok and tuple(els) == ("D",)
                if not ok:
                    self.rep(s, "the client is not %s" % ("registered" if start else "the one that is deregistered"), fn)
                if self.I.held(s, ("Sm",)):
                    self.rep(s, "the server mutex is still held", fn)

    def convert(self, state):
        W = self.W
        fn = "convert_streaming_client_to_applier"
        for clients in ((0,), (1,), (0, 0)):
            st = self.base(state)
            W.fill(st, (), clients)
            for k, v, s in self.call(st, fn, (("p", ("CC",)),), nparams=1):
                m = s.mon
                if k != "ret":
                    continue
                live = state != W.s("s_disconnected")
                if "C" in W.elements(s, "client"):
                    self.rep(s, "the client stays registered", fn)
                if len(clients) > 1 and "D" not in W.elements(s, "client"):
                    self.rep(s, "another client is deregistered", fn)
                reg = "N" in W.elements(s, "applier")
                if live and m.get("#adN") is None:
                    self.rep(s, "the transaction is not adopted by the applier", fn)
                want = live and m.get("#adN") == 0
                if want != reg:
                    self.rep(s, "the applier is %s" % ("not registered" if want else
                                                       "registered although it did not take over the transaction"), fn)
                if reg:
                    e = W.eloc("applier", "N")
                    if (s.get(e + ("first", "first")), s.get(e + ("first", "second")), s.get(e + ("second",))) != \
                            (("k", "sidC"), ("k", "tidC"), ("p", ("HN",))):
                        self.rep(s, "the applier is registered under another key than the transaction's", fn)
                if reg == bool(m.get("#relN")):
                    self.rep(s, "the applier is %s" % ("released although it is registered" if reg else
                                                       "neither registered nor released"), fn)
                if m.get("#relN") and m.get("#cur") != "C":
                    self.rep(s, "the client's globals are not restored after the applier is released", fn)
                if m.get("#adN") and not m.get("#aaN"):
                    self.rep(s, "after_apply is not called for an applier that failed to adopt", fn)
                if self.I.held(s, ("Sm",)):
                    self.rep(s, "the server mutex is still held", fn)

    def appliers(self, state):
        W, I = self.W, self.I
        key = {"A": ("s1", "t1"), "B": ("s1", "t2"), None: ("s2", "t1")}
        for t, (a, b) in key.items():
            st = self.base(state)
            self.applier_keys(st)
            x = st.copy()
            for k, v, s in self.call(x, "find_streaming_applier", (self.arg(x, "KS", a), self.arg(x, "KT", b)), nparams=2):
                want = ("p", ("H" + t,)) if t else 0
                if I.norm(s, v) != want:
                    self.rep(s, "another applier than the one asked for is found", "find_streaming_applier")
            x = st.copy()
            for k, v, s in self.call(x, "stop_streaming_applier", (self.arg(x, "KS", a), self.arg(x, "KT", b)), nparams=2):
                if set(W.elements(s, "applier")) != {"A", "B"} - {t}:
                    self.rep(s, "another applier than the one asked for is deregistered", "stop_streaming_applier")
            x = st.copy()
            for k, v, s in self.call(x, "start_streaming_applier", (self.arg(x, "KS", a), self.arg(x, "KT", b),
                                                                   ("p", ("HN",))), nparams=3):
                e = W.eloc("applier", "N")
                got = (s.get(e + ("first", "first")), s.get(e + ("first", "second")), s.get(e + ("second",)))
                if t is None and (set(W.elements(s, "applier")) != {"A", "B", "N"} or k != "ret" or
                                  got != (("k", a), ("k", b), ("p", ("HN",)))):
                    self.rep(s, "the applier is not registered", "start_streaming_applier")
                if t and k == "ret":
                    self.rep(s, "a second applier of the same transaction is accepted", "start_streaming_applier")
        # by XID: they differ in one number
        ints = [p for p, t in I.leaves("wsrep::xid") if t in ("long", "int")]
        if not ints:
            raise AnalysisBroken("anchor vanished: numbers of wsrep::xid")
        for d in ints:
            for t in ("A", "B", None):
                st = self.base(state)
                self.applier_keys(st)
                for loc, v in ((("HA", "#trx", W.tf["xid"]), 3), (("HB", "#trx", W.tf["xid"]), 4),
                               (("XID",), {"A": 3, "B": 4, None: 5}[t])):
                    for p, ty in I.leaves("wsrep::xid"):
                        st.put(loc + p, v if p == d else 2 if p in ints else ("k", "xid data"))
                for k, v, s in self.call(st, "find_streaming_applier", (("l", ("XID",)),), nparams=1):
                    if I.norm(s, v) != (("p", ("H" + t,)) if t else 0):
                        self.rep(s, "another applier than the one with this XID is found", "find_streaming_applier")


def run(ctx):
    P = ctx.program()
    W = Orphans(P)
    W.mon = OrphanMon(ctx.prop)
    W.I.add_monitor(W.mon)
    Registry(W, W.mon).run()
    R = explore(W, jobs=4)
    ctx.take(R)
    R = explore(W, jobs=8, starts=W.deliveries(R.tops))
    ctx.take(R)
