"""Rules over the server state machine."""
import spec
from interp import Monitor, U
from machine import Machine, LOW, VIEW, SRV, SSV, PRV, HPS
from explore import explore
from ir import AnalysisBroken

DIAG, ANN, JOIN, SST, VIEWS, CONN, DON, WAIT = (
    "state diagram", "state announcement", "joined means complete", "SST hand-shake", "view handling",
    "connecting and disconnecting", "donor", "state waiters")


class MachineMon(Monitor):
    kinds = ("call", "write", "lock", "unlock", "wait", "relock", "reunlock")
    watch = ()

    def __init__(self, prop, rules):
        self.prop, self.rules = prop, rules

    def rep(self, I, st, rule, msg, where=None):
        if rule in self.rules:
            I.report(self.prop, rule, st, msg, where=where)

    def note(self, I, k, v):
        I.notes.setdefault(k, set()).add(v)

    # ------------------------------------------------------------ events
    def on(self, I, st, ev):
        m = st.mon
        W = I.world
        if ev.kind == "write":
            if ev.obj == ("S", W.statef):
                self.write(I, W, st, ev)
            return
        if ev.kind in ("unlock", "wait", "reunlock"):
            mx = ev.obj if ev.kind != "wait" else ev.args[0]
            if mx == ("Sm",):
                self.release(I, st, ev.kind)
            return
        if ev.kind != "call":
            return
        n = ev.name
        sh = n.split("::")[-1]
        held = I.held(st, ("Sm",))
        mine = not m.get("#int")
        if n == "wsrep::condition_variable::notify_all" and ev.obj == ("Sc",):
            m.pop("#nn", None)
            if I.held(st, ("Sm",)):
                m["#ntf"] = 1       # earlier in the same critical section is as good
            return
        if n.startswith(PRV) and sh in ("connect", "disconnect", "sst_sent", "sst_received"):
            self.note(I, "provider call", "%s at %s" % (sh, I.where()))
            if held and sh in ("connect", "disconnect"):
                self.rep(I, st, CONN, "provider %s called while holding the server mutex" % sh)
            if not mine:
                return
            m["#n" + sh] = min(m.get("#n" + sh, 0) + 1, 2)
            m["#p" + sh] = ev.ret
            if sh == "connect":
                m["boot"] = int(I.must(st, ev.args[3], 1))
                if m["boot"] == 0 and not I.must(st, ev.args[3], 0):
                    raise AnalysisBroken("bootstrap argument of provider connect is not decided")
                if self.base(st, m, "boot0") and not m["boot"]:
                    self.rep(I, st, CONN, "connect() does not pass on the bootstrap request")
            elif sh == "sst_received":
                self.told(I, W, st, ev)
            elif sh == "sst_sent":
                if W.in_(st, "s_donor"):
                    self.rep(I, st, DON, "provider told that the SST was sent before the donor state is left")
                if ev.args[0] != ("l", ("SG",)):
                    self.rep(I, st, DON, "provider told about another SST position than was sent")
            return
        if not n.startswith(SSV) and n != "wsrep::view::equal_membership":
            return
        if sh in ("log_state_change", "sst_before_init"):
            if sh == "log_state_change":
                self.announce(I, W, st, ev)
            return
        self.note(I, "service call", "%s at %s" % (sh, I.where()))
        if held and sh in ("recover_streaming_appliers", "get_position", "get_view", "sst_request", "start_sst",
                           "debug_sync"):
            self.rep(I, st, {"recover_streaming_appliers": VIEWS, "start_sst": DON, "debug_sync": VIEWS}.get(sh, SST),
                     "%s called while holding the server mutex" % sh)
        if not mine:
            return
        op = m.get("#op")
        if sh == "get_position":
            m["#pos"] = W.seq(st, ev.ret[1])
            m["#posid"] = I.cell(st, ("l", ev.ret[1] + ("id_",)))
            self.sst_step(I, st, "the position")
        elif sh == "get_view":
            m["#gv"] = W.vseq(st, ev.ret[1])
            m["#gvid"] = I.cell(st, ("l", ev.ret[1] + ("state_id_", "id_")))
            self.sst_step(I, st, "the view")
        elif sh == "recover_streaming_appliers":
            if m.get("rec"):
                self.rep(I, st, VIEWS, "streaming appliers recovered twice")
            if not m["ini"]:
                self.rep(I, st, VIEWS, "streaming appliers recovered before the server is initialized")
            if m.get("#em"):
                self.rep(I, st, VIEWS, "streaming appliers recovered after orphaned transactions were closed")
            m["rec"] = 1
        elif sh == "equal_membership":
            m["#em"] = 1
            if not m.get("rec"):
                self.rep(I, st, VIEWS, "orphaned transactions closed before streaming appliers are recovered")
            if op == "on_view":
                cur, old = W.vseq(st, ev.obj), W.vseq(st, ev.args[0][1]) if type(ev.args[0]) is tuple else None
                if cur != m.get("#v"):
                    cur, old = old, cur
                want = m.get("#oldprim", old)
                if cur != m.get("#v") or old != want:
                    self.rep(I, st, VIEWS, "membership is not compared between the delivered and the last primary view")
        elif sh == "bootstrap":
            if not m["ini"]:
                self.rep(I, st, VIEWS, "server bootstrapped before it is initialized")
            if not m.get("boot"):
                self.rep(I, st, VIEWS, "server bootstrapped without being asked to, or twice")
            m["boot"] = 0
        elif sh == "log_view":
            m["#lv"] = min(m.get("#lv", 0) + 1, 2)
            loc = ev.args[1][1]
            if op == "on_view":
                if W.vseq(st, loc) != m.get("#v"):
                    self.rep(I, st, VIEWS, "another view than the delivered one is logged")
                if ev.args[0] != ("p", HPS):
                    self.rep(I, st, VIEWS, "delivered view is not logged with the caller's applier")
                m["#lvst"] = W.state(st)
            elif op == "sst_received":
                a, b = m.get("#gv", (None, None)), m.get("#pos")
                if W.vseq(st, loc) != a:
                    self.rep(I, st, SST, "another view than the recovered one is adopted after SST")
                elif not I.must(st, I.cmp(st, "<=", a[1], b), 1) or \
                        not I.must(st, I.veq(st, m.get("#gvid"), m.get("#posid")), 1):
                    self.rep(I, st, SST, "recovered view adopted without checking it against the recovered position")
                if not I.must(st, ev.args[0], 0):
                    self.rep(I, st, SST, "recovered view logged again as if delivered")

        elif sh == "start_sst":
            m["#nstart"] = min(m.get("#nstart", 0) + 1, 2)
            m["#pstart"] = ev.ret
            if not W.in_(st, "s_donor") and not m.get("#disc"):
                self.rep(I, st, DON, "SST started although the server is not a donor")
            if ev.args[:2] != (("l", ("REQ",)), ("l", ("SG",))):
                self.rep(I, st, DON, "SST started with other arguments than requested")
        elif sh == "sst_request":
            m["#nreq"] = 1
            if not W.in_(st, "s_joiner") and not m.get("#disc") and not W.in_(st, "s_disconnecting"):
                self.rep(I, st, SST, "SST requested although the server is not a joiner")

    def base(self, st, m, k):
        return m.get("#" + k)

    def sst_step(self, I, st, what):
        m = st.mon
        if not m["ini"]:
            self.rep(I, st, SST, "%s is read before the server is initialized" % what)
        if m.get("#err"):
            self.rep(I, st, SST, "%s is read although the SST failed" % what)

    def told(self, I, W, st, ev):
        """provider.sst_received(gtid, error)"""
        m = st.mon
        a = ev.args[0]
        s = W.seq(st, a[1]) if type(a) is tuple and a[0] in ("l", "p") else None
        m["#told"] = "pos" if s is not None and s == m.get("#pos") else "undef" if I.must(st, s, -1) else "?"
        v = I.norm(st, ev.args[1])
        v = {v} if type(v) is int else I.values(st, v)
        m["#tolderr"] = 0 if v == {0} else 1 if v and 0 not in v else -1

    def announce(self, I, W, st, ev):
        m = st.mon
        f, t = (I.norm(st, a) for a in ev.args[:2])
        if m.get("#w") == (f, t):
            m.pop("#w")
        else:
            if m.get("#l"):
                self.rep(I, st, ANN, "state change announced but not made")
            m["#l"] = (f, t)

    def write(self, I, W, st, ev):
        m = st.mon
        old, new = (I.norm(st, x) for x in ev.args)
        if type(new) is not int:
            self.rep(I, st, DIAG, "server state set to an unknown value")
            return
        if old is None or type(old) is not int:
            return
        on, nn = W.SSTN[old], W.SSTN.get(new, "?")
        self.note(I, "transition", "%s -> %s" % (on, nn))
        self.note(I, "transition in call", "%s: %s -> %s" % (m.get("#op"), on, nn))
        if nn not in spec.SERVER[on]:
            self.rep(I, st, DIAG, "server state goes from %s to %s" % (on, nn))
        if not I.held(st, ("Sm",)):
            self.rep(I, st, DIAG, "server state changed without holding the server mutex")
        if m.get("#l") == (old, new):
            m.pop("#l")
        else:
            if m.get("#w"):
                self.rep(I, st, ANN, "state change not announced to the server")
            m["#w"] = (old, new)
        if not m.get("#ntf"):
            m["#nn"] = 1
        if m.get("w") == old and old != new:
            self.rep(I, st, WAIT, "state %s is left before a thread waiting for it has seen it" % on)
        if nn in ("s_joined", "s_synced", "s_donor") and on in LOW:
            self.joined(I, W, st, on, nn)
        if nn == "s_initialized" and not m["ini"]:
            self.rep(I, st, JOIN, "server marked initialized although it is not")

    def joined(self, I, W, st, on, nn):
        m = st.mon
        op = m.get("#op")
        self.note(I, "joining", "%s: %s -> %s" % (op, on, nn))
        if m.get("#int"):
            self.rep(I, st, JOIN, "%s makes the server %s" % ("initialized() or disconnect()", nn))
            return
        if not m["ini"]:
            self.rep(I, st, JOIN, "server becomes %s before it is initialized" % nn[2:])
        if op == "sst_received":
            ok = m.get("#pos") is not None and I.must(st, I.cmp(st, ">=", m["#pos"], W.connected_seqno(st)), 1)
            if m.get("#err"):
                self.rep(I, st, JOIN, "server becomes joined although the SST failed")
            if not ok:
                self.rep(I, st, JOIN, "server becomes joined although the SST did not reach the position it connected at")
        elif op == "on_view":
            v = m.get("#v")
            if m.get("#vst") != "primary":
                self.rep(I, st, JOIN, "server becomes joined in a non-primary view")
            if not I.must(st, I.cmp(st, ">=", v[1], W.connected_seqno(st)), 1):
                self.rep(I, st, JOIN, "server becomes joined in a view before the position it connected at")
        elif op not in ("on_sync",):
            self.rep(I, st, JOIN, "%s makes the server %s" % (op, nn))

    def release(self, I, st, kind):
        m = st.mon
        m.pop("#ntf", None)
        if m.get("#w"):
            self.rep(I, st, ANN, "state change not announced to the server")
            m.pop("#w")
        if m.get("#l"):
            self.rep(I, st, ANN, "state change announced but not made")
            m.pop("#l")
        if m.get("#nn"):
            self.rep(I, st, WAIT, "waiting threads are not woken up after a state change")
            m.pop("#nn")

    # ------------------------------------------------------------ end of a call
    def begin(self, W, st, name):
        m = st.mon
        I = W.I
        if name == "on_view" or name == "on_connect":
            m["#v"] = W.vseq(st, VIEW)
            m["#vst"] = next(k.split("::")[-1] for k, v in W.VST.items() if v == st.get(VIEW + ("status_",)))
        if name == "on_view":
            x, cur = W.acc(st, "current_view")
            fs = [f["name"] for f in W.P.records["wsrep::server_state"]["fields"] if f["t"] == "wsrep::view" and
                  ("S", f["name"]) != cur]
            if I.must(st, I.read(st, cur + ("status_",), ""), W.VST["primary"]):
                m["#oldprim"] = W.vseq(st, cur)
            elif len(fs) == 1 and not I.may(st, I.read(st, cur + ("status_",), ""), W.VST["primary"]):
                m["#oldprim"] = W.vseq(st, ("S", fs[0]))

    def done(self, W, b, st, name, k, v):
        I = W.I
        m = st.mon
        where = SRV + name
        s0, s1 = W.state(b), W.state(st)
        n0, n1 = W.SSTN[s0], W.SSTN[s1]
        disc = m.get("#disc") or n0 in ("s_disconnecting",)
        self.note(I, "operation", "%s: %s -> %s%s" % (name, n0, n1, " (throws)" if k == "exc" else ""))
        if I.held(st, ("Sm",)):
            self.rep(I, st, DIAG, "%s returns with the server mutex held" % name, where)
        for w, c in W.waiters_left(st):
            self.rep(I, st, WAIT, "%s leaves %s threads waiting for %s" % (name, "wrong number of", w), where)
        if m.get("#nn") or m.get("#w") or m.get("#l"):
            self.release(I, st, "end")
        f = getattr(self, "d_" + name, None)
        if f:
            f(I, W, b, st, k, v, n0, n1, disc, where)

    def stuck(self, W, st, name):
        self.rep(W.I, st, {"sst_received": SST, "prepare_for_sst": SST, "start_sst": DON, "sst_sent": DON}.get(name, VIEWS),
                 "%s() does not complete" % name, SRV + name)

    def d_connect(self, I, W, b, st, k, v, n0, n1, disc, where):
        if st.mon.get("#nconnect") != 1:
            self.rep(I, st, CONN, "connect() calls the provider %d times" % st.mon.get("#nconnect", 0), where)
        elif k == "ret" and I.must(st, v, 0) != (st.mon["#pconnect"] == 0):
            self.rep(I, st, CONN, "connect() result disagrees with the provider", where)
        if n0 != n1:
            self.rep(I, st, CONN, "connect() changes the state", where)

    def d_disconnect(self, I, W, b, st, k, v, n0, n1, disc, where):
        n = st.mon.get("#ndisconnect", 0)
        if n0 in ("s_disconnecting", "s_disconnected"):
            if n or n0 != n1 or not I.must(st, v, 0):
                self.rep(I, st, CONN, "disconnect() of a server that is disconnecting or disconnected has an effect", where)
            return
        if st.mon.get("#disc"):
            return
        if n1 != "s_disconnecting":
            self.rep(I, st, CONN, "disconnect() does not make the server disconnecting", where)
        if n != 1:
            self.rep(I, st, CONN, "disconnect() calls the provider %d times" % n, where)
        elif I.must(st, v, 0) != (st.mon["#pdisconnect"] == 0):
            self.rep(I, st, CONN, "disconnect() result disagrees with the provider", where)

    def d_on_connect(self, I, W, b, st, k, v, n0, n1, disc, where):
        own = I.norm(b, b.get(VIEW + ("own_index_",)))
        good = not I.may(b, own, -1)
        if not good:
            if k != "exc":
                self.rep(I, st, CONN, "on_connect() accepts a view without own index", where)
            elif n0 != n1:
                self.rep(I, st, CONN, "on_connect() changes the state for an invalid view", where)
            return
        if k == "exc":
            if n0 != n1:
                self.rep(I, st, CONN, "on_connect() changes the state for a refused view", where)
            if I.must(b, self.undefined(W, b), 1):
                self.rep(I, st, CONN, "on_connect() refuses a valid view", where)
            return
        if not disc:
            if n1 != "s_connected":
                self.rep(I, st, CONN, "on_connect() does not make the server connected", where)
        if W.connected_seqno(st) != st.mon["#v"][1]:
            self.rep(I, st, CONN, "on_connect() does not record the position of the cluster", where)
        x, loc = W.acc(st, "id")
        if not I.must(st, I.veq(st, I.cell(st, ("l", loc)), W.member_id(st)), 1):
            self.rep(I, st, CONN, "on_connect() does not record the server's id", where)

    def undefined(self, W, st):
        """is id() undefined?"""
        I = W.I
        x, loc = W.acc(st, "id")
        c = I.cell(st, ("l", loc))
        return I.veq(st, c, ("k", "undef"))

    def d_on_view(self, I, W, b, st, k, v, n0, n1, disc, where):
        m = st.mon
        vst = m["#vst"]
        final = I.must(b, b.get(VIEW + ("own_index_",)), -1)
        x, cur = W.acc(st, "current_view")
        if W.vseq(st, cur) != m["#v"]:
            self.rep(I, st, VIEWS, "delivered view is not the current view afterwards", where)
        if k == "exc":
            if not disc:
                self.rep(I, st, VIEWS, "on_view() throws although nothing failed", where)
            return
        if m.get("#lv", 0) != 1:
            self.rep(I, st, VIEWS, "delivered %s view logged %d times" % (vst, m.get("#lv", 0)), where)
        elif m.get("#lvst") != W.state(st) and not disc:
            self.rep(I, st, VIEWS, "view logged before the server has handled it", where)
        if final:
            if n1 != "s_disconnected":
                self.rep(I, st, CONN, "final view does not make the server disconnected", where)
            if not I.must(st, self.undefined(W, st), 1):
                self.rep(I, st, CONN, "server keeps its id after the final view", where)
            m["rec"] = 0
            return
        if vst == "non_primary":
            if not disc and n1 != "s_connected":
                self.rep(I, st, VIEWS, "server stays %s in a non-primary view" % n1[2:], where)
            if disc and n1 not in ("s_disconnecting", "s_disconnected", n0):
                self.rep(I, st, CONN, "view brings a disconnecting server back", where)
            return
        # primary
        if not m["ini"]:
            self.rep(I, st, VIEWS, "primary view handled before the server is initialized", where)
        if not m.get("#em"):
            self.rep(I, st, VIEWS, "orphaned streaming transactions are not closed in a primary view", where)
        if m.get("boot"):
            self.rep(I, st, VIEWS, "bootstrap requested but not done in the primary view", where)
        if disc:
            return
        at = I.cmp(st, ">=", m["#v"][1], W.connected_seqno(st))
        if n1 in LOW and I.decide(st, at) is not False:
            self.rep(I, st, JOIN, "server not joined after a primary view at or past the position it connected at", where)
        if n0 not in LOW and n1 != n0:
            self.rep(I, st, VIEWS, "membership change takes the server from %s to %s" % (n0[2:], n1[2:]), where)
        if n1 in ("s_connected", "s_initializing"):
            self.rep(I, st, VIEWS, "server is still %s after a primary view" % n1[2:], where)

    def d_on_sync(self, I, W, b, st, k, v, n0, n1, disc, where):
        if disc:
            if n1 not in ("s_disconnecting", "s_disconnected"):
                self.rep(I, st, CONN, "sync event brings a disconnecting server back", where)
            return
        if (n0 in ("s_joined", "s_synced", "s_initialized") or n0 == "s_connected" and b.mon["ini"]) and n1 != "s_synced":
            self.rep(I, st, JOIN, "server not synced after a sync event", where)

    def d_prepare_for_sst(self, I, W, b, st, k, v, n0, n1, disc, where):
        if not disc and n1 != "s_joiner":
            self.rep(I, st, SST, "server preparing for SST is not a joiner", where)
        if k == "ret" and not st.mon.get("#nreq"):
            self.rep(I, st, SST, "no SST request made", where)

    def d_sst_received(self, I, W, b, st, k, v, n0, n1, disc, where):
        m = st.mon
        err = m.get("#err")
        if k == "exc":
            self.rep(I, st, SST, "sst_received() throws", where)
            return
        n = m.get("#nsst_received", 0)
        ok = I.must(st, v, 0)
        if n != 1:
            self.rep(I, st, SST, "provider is told %d times that the SST was received" % n, where)
            return
        told, te, pr = m["#told"], m["#tolderr"], m["#psst_received"]
        if err:
            if told != "undef" or te != 1:
                self.rep(I, st, SST, "provider is not told about the failed SST", where)
            if n0 != n1 and not disc:
                self.rep(I, st, SST, "failed SST changes the state from %s to %s" % (n0, n1), where)
        elif te == 0:
            if told != "pos":
                self.rep(I, st, SST, "provider is told another position than the recovered one", where)
            if not m.get("rec"):
                self.rep(I, st, SST, "streaming appliers are not recovered after SST", where)
            gv = m.get("#gvid")
            if gv is None:
                self.rep(I, st, SST, "view is not recovered after SST", where)
            else:
                und = I.veq(st, gv, ("k", "undef"))
                if I.must(st, und, 0) and m.get("#lv", 0) != 1:
                    self.rep(I, st, SST, "recovered view is not adopted", where)
                if I.must(st, und, 1) and m.get("#lv", 0):
                    self.rep(I, st, SST, "empty view is adopted", where)
            if not disc and "#pos" in m and n1 in LOW and I.decide(st, I.cmp(st, ">=", m["#pos"], W.connected_seqno(st))) is not False:
                self.rep(I, st, JOIN, "server not joined although the SST reached the position it connected at", where)
        else:
            if told != "undef":
                self.rep(I, st, SST, "failing SST processing reports a position to the provider", where)
            if ok:
                self.rep(I, st, SST, "sst_received() succeeds although processing the SST failed", where)
        if ok and pr:
            self.rep(I, st, SST, "sst_received() succeeds although the provider refused", where)
        if not ok and not pr and te == 0:
            self.rep(I, st, SST, "sst_received() fails although nothing failed", where)

    def d_start_sst(self, I, W, b, st, k, v, n0, n1, disc, where):
        m = st.mon
        if m.get("#nstart") != 1:
            self.rep(I, st, DON, "SST started %d times" % m.get("#nstart", 0), where)
            return
        ok = I.must(st, v, 0)
        if ok != (m["#pstart"] == 0):
            self.rep(I, st, DON, "start_sst() result disagrees with the server's", where)
        if disc:
            return
        if ok and n1 != "s_donor":
            self.rep(I, st, DON, "server sending an SST is not a donor", where)
        if not ok and n1 != "s_joined":
            self.rep(I, st, DON, "server stays %s after the SST failed to start" % n1[2:], where)

    def d_sst_sent(self, I, W, b, st, k, v, n0, n1, disc, where):
        if st.mon.get("#nsst_sent", 0) != 1:
            self.rep(I, st, DON, "provider is told %d times that the SST was sent" % st.mon.get("#nsst_sent", 0), where)
        if disc:
            return
        want = "s_joined" if n0 == "s_donor" else n0
        if n1 != want:
            self.rep(I, st, DON, "server is %s after the SST was sent by a %s server" % (n1[2:], n0[2:]), where)

    def d_initialized(self, I, W, b, st, k, v, n0, n1, disc, where):
        if not disc and n1 != "s_initialized":
            self.rep(I, st, JOIN, "server is %s after initialization" % n1[2:], where)


def run(ctx, rules, waiters=()):
    P = ctx.program()
    W = Machine(P, waiters)
    W.mon = MachineMon(ctx.prop, rules)
    W.I.add_monitor(W.mon)
    R = explore(W, jobs=4)
    ctx.take(R)
    return R
