"""Applying replicated write sets: server_state::on_apply() for every kind of write set and every
outcome of the DBMS callbacks."""
from interp import Monitor, U, Ev, EMPTY_CONTENT, INF, EMPTYFS
from server import ServerWorld, HPS, HPSV, SSV, PRV, SRV
from ir import AnalysisBroken

WSH, WSM, DATA = ("WSH",), ("WSM",), ("DATA",)
CLOSING = (HPSV + "commit", HPSV + "log_dummy_write_set", HPSV + "append_fragment_and_commit")
WORK = ("apply_write_set", "commit", "rollback", "after_apply", "remove_fragments", "log_dummy_write_set",
        "append_fragment_and_commit", "apply_toi", "apply_nbo_begin")


def kinds(F):
    """every kind of write set a provider delivers (name, flags)."""
    s, c, r, iso, pa, pr = (F[k] for k in ("start_transaction", "commit", "rollback", "isolation", "pa_unsafe",
                                          "prepare"))
    out = []
    for nm, fl in (("transaction", s | c), ("first fragment", s), ("fragment", 0), ("prepare fragment", pr),
                   ("first and prepare fragment", s | pr), ("commit fragment", c), ("rollback fragment", r),
                   ("rollback without transaction", s | r)):
        for x, nx in ((0, ""), (pa, ", pa unsafe"), (F["implicit_deps"], ", implicit deps"),
                      (F["snapshot"], ", snapshot")):
            if x in (F["implicit_deps"], F["snapshot"]) and fl not in (s | c, s):
                continue
            if nm == "prepare fragment" or x != pa or nm in ("transaction", "first fragment", "fragment",
                                                             "commit fragment", "rollback fragment"):
                out.append((nm + nx, fl | x))
    return out


def toi_kinds(F):
    s, c, iso = (F[k] for k in ("start_transaction", "commit", "isolation"))
    return [("TOI", iso | s | c), ("NBO begin", iso | s), ("NBO end", iso | c), ("TOI, pa unsafe", iso | s | c |
                                                                                F["pa_unsafe"])]


class ApplyMon(Monitor):
    kinds = ("call",)
    watch = ()

    def __init__(self, prop, rules):
        self.prop, self.rules = prop, rules

    def rep(self, I, st, rule, msg, where=None):
        if rule in self.rules:
            I.report(self.prop, rule, st, msg, where=where)

    def svc(self, ev):
        return ev.obj

    def on(self, I, st, ev):
        m = st.mon
        n = ev.name
        sh = n.split("::")[-1]
        W = I.world
        if n == SSV + "streaming_applier_service":
            m["sa"] = ("o", ev.ret[1])
            m["sa.new"] = 1
            I.world.set_fragments(st, 0)
            I.notes.setdefault("streaming applier", set()).add("created " + I.where())
        elif n == SSV + "release_high_priority_service":
            if m.get("sa.rel"):
                self.rep(I, st, "streaming applier lifecycle", "streaming applier released twice")
            if m.get("sa.reg", 1):
                self.rep(I, st, "streaming applier lifecycle", "streaming applier released while still registered")
            m["sa.rel"] = 1
            m["cur"] = None
            I.notes.setdefault("streaming applier", set()).add("released " + I.where())
        elif n == SRV + "start_streaming_applier":
            self.key(I, st, ev)
            if m.get("sa.reg"):
                self.rep(I, st, "streaming applier lifecycle", "streaming applier registered twice")
            m["sa.reg"] = 1
            I.notes.setdefault("streaming applier", set()).add("registered " + I.where())
        elif n == SRV + "stop_streaming_applier":
            self.key(I, st, ev)
            if not m.get("sa.reg"):
                self.rep(I, st, "streaming applier lifecycle", "streaming applier deregistered but not registered")
            m["sa.reg"] = 0
            I.notes.setdefault("streaming applier", set()).add("deregistered " + I.where())
        elif n.startswith(HPSV):
            self.hps(I, st, ev, sh)
        elif n in (PRV + "commit_order_enter", PRV + "commit_order_leave"):
            self.toi(I, st, ev, sh)

    def key(self, I, st, ev):
        sid, tid = I.world.expect
        a = I.cell(st, ev.args[0])
        b = I.norm(st, I.cell(st, ev.args[1]))
        if a != sid or b != tid:
            self.rep(I, st, "streaming applier lifecycle",
                     "%s uses a key other than the write set's origin and transaction" % ev.name.split("::")[-1])

    def handle_args(self, I, st, ev):
        """does the call carry the delivered handle and meta data?"""
        ls = [a[1] for a in ev.args if type(a) is tuple and a[0] == "l"]
        return WSH in ls, WSM in ls

    def hps(self, I, st, ev, sh):
        m = st.mon
        o = ev.obj
        isH = o == HPS
        if sh in ("debug_crash", "transaction", "is_replaying"):
            if not isH and m.get("sa.rel"):
                self.rep(I, st, "streaming applier lifecycle", "released streaming applier used by %s" % sh)
            if sh == "is_replaying":
                m["replay"] = ev.ret
            return
        who = "H" if isH else "S"
        if not isH:
            if m.get("sa.rel"):
                self.rep(I, st, "streaming applier lifecycle", "released streaming applier used by %s" % sh)
            if m.get("sa") is None:
                m["sa"] = o[0]
            elif (m["sa"],) != o:
                self.rep(I, st, "streaming applier lifecycle", "%s called on an unrelated service" % sh)
        if sh == "store_globals":
            m["cur"] = who
            return
        if sh == "reset_globals":
            if m.get("cur") != who:
                self.rep(I, st, "execution context", "reset_globals of a service that is not current")
            m["cur"] = None
            return
        if sh == "switch_execution_context":
            return
        I.notes.setdefault("callback site", set()).add("%s at %s" % (sh, I.where()))
        if sh in WORK and m.get("cur", "H") != who:
            self.rep(I, st, "execution context", "%s called outside of the service's execution context" % sh)
        r = ev.ret
        bad = type(r) is not int or r != 0
        self.transaction(I, st, ev, sh, who, bad)
        if bad and sh not in ("apply_write_set", "apply_toi", "apply_nbo_begin", "adopt_transaction", "after_apply",
                              "adopt_apply_error") and type(r) is not tuple:
            m["err"] = 1
        if bad and type(r) is tuple and sh in ("start_transaction", "next_fragment", "commit", "rollback",
                                               "remove_fragments", "log_dummy_write_set",
                                               "append_fragment_and_commit", "apply_nbo_begin"):
            m["err"] = 1
        if sh in ("apply_write_set", "apply_toi", "apply_nbo_begin"):
            m["applies"] = m.get("applies", 0) + 1
            if m["applies"] > 1:
                self.rep(I, st, "ordering consumed once", "write set applied twice")
            if m.get("closed"):
                self.rep(I, st, "ordering consumed once", "write set applied after its place in the order was closed")
            if sh == "apply_write_set":
                if m.get("fail"):
                    self.rep(I, st, "apply errors", "write set applied although an earlier step failed")
                if not isH and not m.get("sa.started"):
                    self.rep(I, st, "streaming applier lifecycle", "fragment applied before the streaming applier's "
                                                                  "transaction or fragment was started")
            elif not m.get("coe"):
                self.rep(I, st, "TOI order", "%s outside of the commit order critical section" % sh)
            elif m.get("col"):
                self.rep(I, st, "TOI order", "%s after leaving the commit order critical section" % sh)
            data = [a[1] for a in ev.args if type(a) is tuple and a[0] == "l"]
            if DATA not in data or WSM not in data:
                self.rep(I, st, "ordering consumed once", "%s called with other data than delivered" % sh)
            if bad:
                m["aerr"] = 2 if ev.args[-1] else 1
                m["errbuf"] = ev.args[2]
                m["arolled"] = 0
                m["adopted"] = 0
                m["asvc"] = who
            return
        if sh in ("start_transaction", "next_fragment"):
            if not isH:
                m["sa.started"] = m.get("sa.started", 0) + 1
            if bad and sh == "start_transaction":
                m["fail"] = 1
            return
        if sh == "adopt_transaction":
            if bad:
                m["adopt_failed"] = 1
            elif isH:
                m["adoptedH"] = 1
            return
        if sh == "adopt_apply_error":
            m["adopted"] = 1
            if m.get("errbuf") is not None and ev.args[0] != m["errbuf"]:
                self.rep(I, st, "apply errors", "adopt_apply_error with another buffer than the apply error's")
            return
        if sh == "rollback":
            if bad:
                m["fail"] = 1
            elif m.get("aerr") and who == m.get("asvc"):
                m["arolled"] = 1
            if m.get("closed") == 1 and not m.get("fail"):
                self.rep(I, st, "ordering consumed once", "rollback after the write set was closed")
            if not isH and m.get("sa.rollback") and who == "S":
                self.rep(I, st, "streaming applier lifecycle", "streaming transaction rolled back twice")
            if not isH:
                m["sa.rollback"] = 1
                m["sa.active"] = 0
            return
        if sh == "remove_fragments":
            if bad:
                m["fail"] = 1
            else:
                m["removed"] = 1
            if not any(type(a) is tuple and a[0] == "l" and a[1] == WSM for a in ev.args):
                self.rep(I, st, "ordering consumed once", "fragments removed under other meta data than delivered")
            if m.get("closed"):
                self.rep(I, st, "fragment removal", "fragments removed after the closing commit")
            return
        if sh in ("commit", "log_dummy_write_set", "append_fragment_and_commit"):
            h, w = self.handle_args(I, st, ev)
            if not (h and w):
                self.rep(I, st, "ordering consumed once", "%s called with other handle or meta data than delivered" % sh)
            if m.get("closed"):
                self.rep(I, st, "ordering consumed once", "write set closed twice in the total order")
            if sh == "commit" and not isH:
                m["prepared"] = I.world.must_prepared(st, o)
            m["closed"] = 1
            I.notes.setdefault("closing site", set()).add("%s at %s" % (sh, I.where()))
            if m.get("fail"):
                self.rep(I, st, "apply errors", "%s although an earlier step failed" % sh)
            if m.get("aerr"):
                if not m.get("arolled"):
                    self.rep(I, st, "apply errors", "%s without rolling back the failed changes" % sh)
                if sh == "append_fragment_and_commit":
                    self.rep(I, st, "apply errors", "fragment stored although it failed to apply")
                if sh == "commit" and not m.get("adopted"):
                    self.rep(I, st, "apply errors", "commit after failed applying does not carry the apply error")
                if sh == "log_dummy_write_set" and ev.args[2] != m.get("errbuf"):
                    self.rep(I, st, "apply errors", "dummy write set does not carry the apply error")
            elif sh == "log_dummy_write_set" and m.get("applies"):
                self.rep(I, st, "apply errors", "successfully applied write set replaced by a dummy")
            if bad:
                m["fail"] = 1
            m["how"] = (sh, who)
            return
        if sh == "after_apply":
            m["aa" + who] = m.get("aa" + who, 0) + 1

    IDLE, OPEN, ENDED = 0, 1, 2

    def transaction(self, I, st, ev, sh, who, bad):
        """one transaction at a time per service: started, worked in, ended, cleaned up (after_apply)"""
        m = st.mon
        rule = "applier transaction" if who == "H" else "streaming applier transaction"
        s = m.get("tx" + who, self.IDLE)
        if m.get("fail") or m.get("replay"):
            return
        if sh in ("start_transaction", "adopt_transaction"):
            if s == self.OPEN:
                self.rep(I, st, rule, "%s while the applier's transaction is open" % sh)
            elif s == self.ENDED:
                self.rep(I, st, rule, "%s before after_apply of the previous transaction" % sh)
            if bad and sh == "adopt_transaction":
                m["tx" + who] = self.ENDED
            elif not bad:
                m["tx" + who] = self.OPEN
        elif sh in ("apply_write_set", "remove_fragments", "commit", "adopt_apply_error"):
            if s != self.OPEN:
                self.rep(I, st, rule, "%s without an open transaction" % sh)
            if sh == "apply_write_set" and not bad:
                m["due" + who] = 1
            if sh == "commit" and not bad:
                m["tx" + who] = self.ENDED
        elif sh == "rollback":
            if s != self.OPEN:
                self.rep(I, st, rule, "rollback without an open transaction")
            if not bad:
                m["tx" + who] = self.ENDED
        elif sh in ("append_fragment_and_commit", "log_dummy_write_set"):
            if s == self.OPEN:
                self.rep(I, st, rule, "%s while the applier's transaction is open" % sh)
            elif s == self.ENDED:
                self.rep(I, st, rule, "%s before after_apply of the previous transaction" % sh)
            if sh == "append_fragment_and_commit" and not bad:
                m["tx" + who] = self.ENDED
        elif sh == "after_apply":
            if s == self.OPEN and m.get("aerr") and m.get("asvc") == who and not m.get("arolled"):
                self.rep(I, st, rule, "after_apply before the failed changes were rolled back")
            if s == self.OPEN and not m.get("due" + who):
                self.rep(I, st, rule, "after_apply while the applier's transaction is open")
            if s == self.ENDED:
                m["tx" + who] = self.IDLE
                if who == "S":
                    I.world.forget_fragments(st)
            m["due" + who] = 0

    def ended(self, W, kind, st, where):
        m = st.mon
        if m.get("replay"):
            return
        for who, rule, nm in (("H", "applier transaction", "applier"),
                              ("S", "streaming applier transaction", "streaming applier")):
            s = m.get("tx" + who, self.IDLE)
            if s == self.ENDED or m.get("due" + who):
                self.rep(W.I, st, rule, "%s: %s is not cleaned up with after_apply" % (kind, nm), where)
            elif s == self.OPEN and (who == "H" or m.get("sa.rel")):
                self.rep(W.I, st, rule, "%s: transaction of the %s left open" % (kind, nm), where)

    def toi(self, I, st, ev, sh):
        m = st.mon
        h, w = self.handle_args(I, st, ev)
        if not (h and w):
            self.rep(I, st, "TOI order", "%s called with other handle or meta data than delivered" % sh)
        if sh == "commit_order_enter":
            if m.get("coe"):
                self.rep(I, st, "TOI order", "commit order entered twice")
            m["coe"] = 1
        else:
            if not m.get("coe"):
                self.rep(I, st, "TOI order", "commit order left without being entered")
            if m.get("col"):
                self.rep(I, st, "TOI order", "commit order left twice")
            m["col"] = 1
            if m.get("aerr") and (len(ev.args) < 3 or ev.args[2] != m.get("errbuf")):
                self.rep(I, st, "TOI order", "commit order left without passing on the apply error")
            if type(ev.ret) is not int or ev.ret:
                m["fail"] = m["err"] = 1

    # ---- one delivered write set is over
    def finish(self, W, kind, st, k, v, toi):
        I = W.I
        m = st.mon
        where = "write set kind '%s' (wsrep::server_state::on_apply)" % kind
        if k == "exc":
            if v != "wsrep::fatal_error":
                self.rep(I, st, "apply errors", "%s: exception %s leaves on_apply" % (kind, v), where)
            return
        ok = None
        if I.must(st, v, 0):
            ok = True
        elif not I.may(st, v, 0):
            ok = False
        for success in ((True, False) if ok is None else (ok,)):
            I.notes.setdefault("outcome", set()).add("%s -> %s: %s" % (kind, "ok" if success else "error",
                                                                       m.get("how") or ("toi" if toi else None)))
            if success:
                if toi:
                    if not (m.get("coe") and m.get("col")):
                        self.rep(I, st, "TOI order", "%s: on_apply succeeds without passing through commit order" % kind,
                                 where)
                    if kind.startswith("NBO end"):
                        if m.get("applies"):
                            self.rep(I, st, "TOI order", "NBO end event applied", where)
                    elif m.get("applies", 0) != 1:
                        self.rep(I, st, "TOI order", "%s: on_apply succeeds without applying" % kind, where)
                elif not m.get("closed"):
                    self.rep(I, st, "ordering consumed once", "%s: on_apply succeeds and the write set's place in the "
                             "total order is never closed" % kind, where)
                # an NBO end event carries no vote of this node, the outcome was voted on at the end of the NBO
                if not toi and not m.get("applies") and (kind.split(",")[0] == "transaction" or m.get("replay")):
                    self.rep(I, st, "ordering consumed once", "%s: on_apply succeeds without applying" % kind, where)
                if m.get("fail") and not kind.startswith("NBO end"):
                    self.rep(I, st, "apply errors", "%s: on_apply succeeds although a callback failed" % kind, where)
                if m.get("aerr") == 1:
                    self.rep(I, st, "apply errors", "%s: on_apply succeeds although applying failed without an error "
                             "to vote on" % kind, where)
                self.lifecycle(W, kind, st, where)
                self.ended(W, kind, st, where)
            elif not m.get("err") and m.get("aerr") != 1 and not m.get("replay"):
                self.rep(I, st, "vote result", "%s: on_apply reports an error although %s" % (
                    kind, "the cluster agreed on the apply error" if m.get("aerr") else "nothing failed"), where)
            if toi and m.get("coe") and not m.get("col"):
                self.rep(I, st, "TOI order", "%s: commit order not left" % kind, where)
            if m.get("cur", "H") != "H":
                self.rep(I, st, "execution context", "%s: on_apply returns outside of the applier's execution context" %
                         kind, where)
            if m.get("sa.new") and not m.get("sa.reg") and not m.get("sa.rel"):
                self.rep(I, st, "streaming applier lifecycle", "%s: streaming applier leaks" % kind, where)

    def lifecycle(self, W, kind, st, where):
        m = st.mon
        I = W.I
        rule = "streaming applier lifecycle"
        first = kind.startswith("first")
        found = m.get("sa.found")
        if first and not m.get("sa.new"):
            self.rep(I, st, rule, "%s: no streaming applier created" % kind, where)
        if kind.split(",")[0] in ("transaction",) and m.get("sa") is not None:
            self.rep(I, st, rule, "%s: uses a streaming applier" % kind, where)
        if kind.split(" ")[0] in ("fragment", "prepare", "commit") or kind.startswith("rollback fragment"):
            if not found and not m.get("notfound") and not m.get("replay"):
                self.rep(I, st, rule, "%s: no streaming applier looked for" % kind, where)
        if m.get("sa") is None or not (first or found):
            return
        gone = m.get("sa.rel")
        if (kind.startswith("rollback") or kind.startswith("commit")) and not gone:
            self.rep(I, st, rule, "%s: streaming applier stays behind" % kind, where)
        if m.get("aerr") and not gone:
            self.rep(I, st, rule, "%s: streaming applier stays behind after failing to apply" % kind, where)
        if not m.get("aerr") and gone and not (kind.startswith("rollback") or kind.startswith("commit")):
            self.rep(I, st, rule, "%s: streaming applier of an ongoing transaction released" % kind, where)
        if gone and m.get("sa.reg"):
            self.rep(I, st, rule, "%s: released streaming applier stays registered" % kind, where)
        if kind.startswith("rollback") and not m.get("sa.rollback"):
            self.rep(I, st, rule, "%s: streaming transaction not rolled back" % kind, where)
        if not m.get("aerr") and not kind.startswith("rollback") and not m.get("applies"):
            self.rep(I, st, rule, "%s: fragment not applied" % kind, where)
        if not m.get("aerr") and (first or kind.startswith("fragment") or kind.startswith("prepare")) and \
                (m.get("how") or (None,))[0] != "append_fragment_and_commit":
            self.rep(I, st, rule, "%s: applied fragment is not stored in fragment storage" % kind, where)
        if kind.startswith("commit") and not m.get("aerr") and not m.get("removed") and not m.get("prepared"):
            self.rep(I, st, "fragment removal", "%s: fragments of a finished transaction not removed" % kind, where)
        if m.get("frags") and not m.get("removed") and not m.get("prepared") and not m.get("adopt_failed") and gone:
            self.rep(I, st, "fragment removal", "%s: fragments of a finished transaction not removed" % kind, where)
        if m.get("sa.new") or found:
            for w in ("S",):
                if not m.get("aa" + w):
                    self.rep(I, st, rule, "%s: after_apply not called for the streaming applier" % kind, where)


class ApplyWorld(ServerWorld):
    frag = None

    def __init__(self, P):
        super().__init__(P)
        I = self.I
        for m in ("start_streaming_applier", "stop_streaming_applier"):
            I.no_inline.add(P.fn(SRV + m).key)
        for g in P.by_name.get(SRV + "find_streaming_applier", ()):
            I.no_inline.add(g.key)
        I.models[SRV + "find_streaming_applier"] = self.m_find
        I.models[SRV + "start_streaming_applier"] = self.m_void
        I.models[SRV + "stop_streaming_applier"] = self.m_void

    def m_void(self, I, st, c):
        I.emit(st, Ev("call", c.cname, ("S",), tuple(c.args), None, c.node, I))
        st.log("%s:%d %s()" % (c.fn.short(), c.node["l"], c.cname.split("::")[-1]))
        return [(st, U)]

    def m_find(self, I, st, c):
        for m in I.by_event.get("call", ()):
            m.key(I, st, Ev("call", c.cname, ("S",), tuple(c.args), None, c.node, I))
        if st.mon.get("sa") is not None:
            return [(st, ("p", (st.mon["sa"],)))]
        y = st.copy()
        y.log("no streaming applier found")
        v = I.sym(st, ("found",), ("I", 1, 1 << 60, frozenset()))
        st.mon["sa"] = ("o", v[1])
        st.mon["sa.reg"] = 1
        st.mon["sa.found"] = 1
        st.mon["txS"] = 1
        st.log("streaming applier found")
        y.mon["notfound"] = 1
        out = [(y, 0)]
        for stored in (0, 1):
            z = st.copy()
            z.mon["frags"] = stored
            z.log("which has %s fragments" % ("stored" if stored else "no stored"))
            self.set_fragments(z, stored)
            out.append((z, v))
        return out

    def fragments_loc(self, st):
        if self.frag is None:
            s = self.P.field_of("wsrep::transaction", "wsrep::streaming_context")
            f = self.P.field_of("wsrep::streaming_context", "std::vector<")
            self.frag = (s, f)
        ref = ("#refs", ("ro", HPSV + "transaction", (st.mon["sa"],)))
        v = st.get(ref)
        if v is None:
            v = self.I.sym(st, ("ref", HPSV + "transaction", (st.mon["sa"],)), ("I", 1, 1 << 60, EMPTYFS))
            st.put(ref, v)
        return (("o", v[1]),) + self.frag

    def set_fragments(self, st, stored):
        l = self.fragments_loc(st)
        if not stored:
            st.put(l, EMPTY_CONTENT)
            return
        ct = self.I.sym(st, ("ct", "fragments"), ("I", INF, INF, EMPTYFS))
        st.put(l, ct)
        self.I.atom(st, ("size", ct), ("I", 1, INF, EMPTYFS))

    def forget_fragments(self, st):
        """a transaction which has ended and is cleaned up has no fragments any more"""
        if st.mon.get("sa") is not None:
            self.set_fragments(st, 0)

    def must_prepared(self, st, o):
        """is the streaming applier's transaction known to be in prepared state here?"""
        I = self.I
        x = st.copy()
        v = x.get(("#refs", ("ro", HPSV + "transaction", o)))
        if v is None:
            return 0
        f = self.P.fn("wsrep::transaction::state", 0)
        val = self.TST.get("wsrep::transaction::s_prepared", self.TST.get("s_prepared"))
        return int(all(I.must(y, r, val) for k, y, r in I.run(f, x, ("p", (("o", v[1]),)), [])))

    def start(self, flags):
        P, I = self.P, self.I
        st = self.base()
        f = P.fn("wsrep::ws_meta::ws_meta", 4)
        r = I.run(f, st, ("p", WSM), [("l", ("G0",)), ("l", ("ST0",)), ("l", ("DEP",)), flags])
        if len(r) != 1:
            raise AnalysisBroken("ws_meta constructor: %d outcomes" % len(r))
        st = r[0][1]
        out = []
        for k, s, v in I.run(P.fn("wsrep::ws_meta::ordered", 0), st, ("p", WSM), []):
            if I.assume(s, v, True):
                out.append(s)
        if not out:
            raise AnalysisBroken("no ordered write set")
        res = []
        for st in out:
            k, st, v = I.run(P.fn("wsrep::ws_meta::server_id", 0), st, ("p", WSM), [])[0]
            sid = I.cell(st, v)
            k, st, v = I.run(P.fn("wsrep::ws_meta::transaction_id", 0), st, ("p", WSM), [])[0]
            tid = I.norm(st, I.cell(st, v))
            self.expect = (sid, tid)
            st.mon = {"cur": "H"}
            res.append(st)
        return res


def run(ctx, prop, rules, toi=False, normal=True):
    P = ctx.program()
    W = ApplyWorld(P)
    mon = ApplyMon(prop, rules)
    W.I.add_monitor(mon)
    ks = (kinds(W.FLAG) if normal else []) + (toi_kinds(W.FLAG) if toi else [])
    n = 0
    for name, flags in ks:
        is_toi = bool(flags & W.FLAG["isolation"])
        outs = []
        for st in W.start(flags):
            outs += W.call(st, SRV + "on_apply", [("l", HPS), ("l", WSH), ("l", WSM), ("l", DATA)])
        if not outs:
            W.I.report(prop, "apply errors", st, "%s: write set is not handled" % name,
                       where="write set kind '%s' (wsrep::server_state::on_apply)" % name)
        for k, s, v in outs:
            n += 1
            mon.finish(W, name, s, k, v, is_toi)
        ctx.inst("write set kind", "%s flags=%d" % (name, flags))
    ctx.count("outcome_paths", n)
    ctx.count("events", W.I.cov["events"])
    take(ctx, W)
    return W


def take(ctx, W):
    class R:
        pass
    r = R()
    I = W.I
    r.violations, r.functions, r.notes = I.violations, I.cov["functions"], I.notes
    r.tops, r.steps, r.events = (), I.steps, 0
    ctx.take(r)
