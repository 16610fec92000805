"""Operations in total order isolation (TOI, NBO) and rolling schema upgrade (RSU) of a session."""
from interp import Monitor, U
from iso import IsoSession, PRV, SRV, CSN, META, N_UNDEF
from explore import explore
from ir import AnalysisBroken

LOCAL = {"enter_toi_local": "toi", "begin_nbo_phase_one": "nbo1", "begin_nbo_phase_two": "nbo2"}


class IsoMon(Monitor):
    kinds = ("call", "done", "write")
    watch = ()

    def __init__(self, prop, rules):
        self.prop, self.rules = prop, rules

    def rep(self, I, st, rule, msg, where=None):
        if rule in self.rules:
            I.report(self.prop, rule, st, msg, where=where)

    def note(self, I, k, v):
        I.notes.setdefault(k, set()).add(v)

    def on(self, I, st, ev):
        if ev.kind != "call":
            return
        n = ev.name
        m = st.mon
        W = I.world
        sh = n.split("::")[-1]
        if n in (PRV + "enter_toi", PRV + "leave_toi") or n.startswith(SRV) or \
                n == "wsrep::server_service::wait_committing_transactions":
            if sh in ("enter_toi", "leave_toi", "desync", "resync", "pause", "resume",
                      "wait_committing_transactions"):
                self.note(I, "blocking call", "%s at %s" % (sh, I.where()))
                if I.held(st, ("Cm",)):
                    self.rep(I, st, "session lock", "%s called while holding the session mutex" % sh)
        if n == PRV + "enter_toi":
            given, how, s = ev.args[-3:]
            self.note(I, "enter_toi", I.where())
            if m.get("in"):
                self.rep(I, st, "TOI pairing", "enter_toi while the session is already in total order isolation")
            m["#n"] = 1 - m.get("#n", 0)
            last = m.get("#last")
            if last is not None:
                self.note(I, "retry", I.where())
                if last not in (W.PST["error_certification_failed"], W.PST["error_connection_failed"]):
                    self.rep(I, st, "TOI errors", "enter_toi retried after an error that is not transient")
                if not m.get("#asked"):
                    self.rep(I, st, "TOI errors", "enter_toi retried without checking that the session was not interrupted")
            m["#last"] = ev.ret
            m.pop("#asked", None)
            if m["ph"] == "nbo" and given != m.get("#nbo"):
                self.rep(I, st, "NBO phases", "enter_toi for the second phase does not carry the NBO's start position")
            fl = I.values(st, ev.args[4])
            want = {"stmt": None, "nbo": {W.FLAG["commit"]}}[m["ph"]]
            top = W.top
            if top == "enter_toi_local":
                want = {W.FLAG["start_transaction"] | W.FLAG["commit"]}
            elif top == "begin_nbo_phase_one":
                want = {W.FLAG["start_transaction"]}
            if want and fl != want:
                self.rep(I, st, "NBO phases" if "nbo" in top else "TOI pairing",
                         "%s replicates the operation with flags %s" % (top, sorted(fl) if fl else "unknown"))
            if how == "ord":
                m["in"] = 1
                m["#toi"] = s
                m["ok"] = int(ev.ret == W.PST["success"])
            return
        if n == "wsrep::client_service::interrupted" and I.must(st, ev.ret, 0):
            m["#asked"] = 1
        if n == PRV + "leave_toi":
            self.note(I, "leave_toi", I.where())
            if not m.get("in"):
                self.rep(I, st, "TOI pairing", "leave_toi although the session is not in total order isolation")
            a = ev.args[1]
            s = I.norm(st, I.read(st, a[1] + META, "long")) if type(a) is tuple and a[0] in ("l", "p") else None
            if m.get("in") and s != m.get("#toi"):
                self.rep(I, st, "TOI pairing", "leave_toi with other meta data than enter_toi returned")
            if m.get("#err") is not None and ev.args[2] != m["#err"]:
                self.rep(I, st, "TOI pairing", "leave_toi does not pass on the operation's error")
            m["in"] = 0
            m["left"] = 1
            return
        if n.startswith(SRV) and sh in ("desync", "resync", "pause", "resume"):
            d, p = m.get("bal", (0, 0))
            self.note(I, "rsu step", "%s at %s" % (sh, I.where()))
            if sh == "desync":
                if type(ev.ret) is int and ev.ret == 0:
                    if d:
                        self.rep(I, st, "RSU balance", "node desynced twice")
                    d += 1
            elif sh == "resync":
                if not d:
                    self.rep(I, st, "RSU balance", "resync without a desync")
                if p:
                    self.rep(I, st, "RSU balance", "node resynced while still paused")
                d = 0
                if not ev.ret:
                    m["thrown"] = 1
            elif sh == "pause":
                if p:
                    self.rep(I, st, "RSU balance", "provider paused twice")
                if not d:
                    self.rep(I, st, "RSU balance", "provider paused although the node is not desynced")
                if not m.get("waited"):
                    self.rep(I, st, "RSU balance", "provider paused before committing transactions were waited for")
                p += ev.ret
            else:
                if not p:
                    self.rep(I, st, "RSU balance", "resume without a pause")
                p = 0
                if not ev.ret:
                    m["thrown"] = 1
            m["bal"] = (min(d, 2), min(p, 2))
        elif sh == "wait_committing_transactions":
            if I.must(st, ev.ret, 0):
                m["waited"] = 1
            if not m.get("bal", (0, 0))[0]:
                self.rep(I, st, "RSU balance", "waits for committing transactions before the node is desynced")

    def done(self, W, st, before, name, r):
        """an API call returned r"""
        I = W.I
        m = st.mon
        where = "wsrep::client_state::%s" % name
        good = r is None or r == 0
        if m.pop("sleeping", None):
            pass
        self.note(I, "operation", "%s -> %s" % (name, "ok" if good else "failed"))
        toi, _ = W.obs(st, "toi_meta")
        nbo = W.nbo(st)
        left = m.pop("left", None)
        m.pop("ok", None)
        err = I.must(st, W.obs(st, "current_error")[0], 0)
        if name in LOCAL:
            if good and not m.get("in"):
                self.rep(I, st, "TOI pairing", "%s succeeds outside of total order isolation" % name, where)
            if not good and m.get("in"):
                self.rep(I, st, "TOI pairing", "%s fails but the session stays in total order isolation" % name, where)
            if not good and err:
                self.rep(I, st, "TOI errors", "%s fails without a client error" % name, where)
            if good and toi != m.get("#toi"):
                self.rep(I, st, "TOI pairing", "after %s the session does not know its position in total order" % name,
                         where)
        if name in ("leave_toi_local", "end_nbo_phase_one", "end_nbo_phase_two") and not left:
            self.rep(I, st, "TOI pairing", "%s does not leave total order isolation" % name, where)
        if name == "leave_toi_mode":
            m["in"] = 0
        want = {"enter_toi_local": "m_toi", "enter_toi_mode": "m_toi", "leave_toi_local": "m_local",
                "leave_toi_mode": "m_high_priority", "begin_rsu": "m_rsu", "end_rsu": "m_local",
                "begin_nbo_phase_one": "m_nbo", "end_nbo_phase_one": "m_nbo", "enter_nbo_mode": "m_nbo",
                "begin_nbo_phase_two": "m_nbo", "end_nbo_phase_two": "m_local"}.get(name)
        if name in ("enter_toi_local", "begin_rsu", "begin_nbo_phase_one", "begin_nbo_phase_two") and not good:
            want = "m_local"
        rule = "RSU balance" if "rsu" in name else "NBO phases" if "nbo" in name else "TOI pairing"
        if want and not W.mode_is(st, want):
            self.rep(I, st, rule, "%s%s leaves the session in the wrong mode" % (name, "" if good else " failing"), where)
        if name in ("leave_toi_local", "leave_toi_mode", "end_nbo_phase_one", "end_nbo_phase_two", "begin_rsu",
                    "end_rsu") or (name in LOCAL and not good):
            if not I.must(st, toi, N_UNDEF):
                self.rep(I, st, rule, "%s%s leaves stale TOI meta data behind" % (name, "" if good else " failing"), where)
            tm = W.obs(st, "toi_mode")[0]
            if name != "begin_rsu" and not I.must(st, tm, W.MODE["m_undefined"]):
                self.rep(I, st, rule, "%s%s leaves the session marked as inside TOI or RSU" %
                         (name, "" if good else " failing"), where)
        if name in ("leave_toi_local", "leave_toi_mode"):
            lw = W.obs(st, "last_written_gtid")[1]
            v = I.norm(st, I.read(st, lw + META[1:], "long"))
            if v != before.mon.get("#toi"):
                self.rep(I, st, rule, "%s does not record the operation's position as last written" % name, where)
        if name in ("end_nbo_phase_one", "enter_nbo_mode"):
            src = before.mon.get("#toi") if name == "end_nbo_phase_one" else before.mon.get("#nbo")
            if nbo != src:
                self.rep(I, st, "NBO phases", "%s does not remember the NBO's start position" % name, where)
        if name == "end_nbo_phase_two" or (name == "begin_nbo_phase_two" and not good):
            if not I.must(st, nbo, N_UNDEF):
                self.rep(I, st, "NBO phases", "%s leaves stale NBO meta data behind" % name, where)
        if name in ("end_nbo_phase_one", "end_nbo_phase_two") and not good and err:
            self.rep(I, st, "TOI errors", "%s fails without a client error" % name, where)
        if name in ("enter_toi_local", "begin_nbo_phase_one") and m.get("#last") == \
                W.PST["error_certification_failed"]:
            e = I.values(st, W.obs(st, "current_error")[0])
            if not good and e != {W.ERR["e_deadlock_error"]}:
                self.rep(I, st, "TOI errors", "%s fails certification without reporting a deadlock" % name, where)
        thrown = m.pop("thrown", None)
        if name == "begin_rsu":
            m.pop("waited", None)
            if good and m["bal"] != (1, 1):
                self.rep(I, st, "RSU balance", "begin_rsu succeeds but the node is not desynced and paused", where)
            if not good and m["bal"] != (0, 0):
                self.rep(I, st, "RSU balance", "begin_rsu fails and leaves the node desynced or paused", where)
        if name == "end_rsu":
            if good and m["bal"] != (0, 0):
                self.rep(I, st, "RSU balance", "end_rsu succeeds but the node is still desynced or paused", where)
            if good and thrown:
                self.rep(I, st, "RSU balance", "end_rsu succeeds although resuming failed", where)
            if not good and not thrown:
                self.rep(I, st, "RSU balance", "end_rsu fails although nothing failed", where)
            m["bal"] = (0, 0)


def run(ctx, prop, rules, hp=(False, True)):
    P = ctx.program()
    for h in hp:
        W = IsoSession(P, hp=h)
        W.FLAG = {k[1].split("::")[-1]: v["val"] for k, v in P.globals.items()
                  if k[0] == "qn" and k[1].startswith("wsrep::provider::flag::") and type(v.get("val")) is int}
        W.I.add_monitor(IsoMon(prop, rules))
        g0 = W.go

        def go(st, name, *a, _g=g0, _W=W, **k):
            _W.top = name
            return _g(st, name, *a, **k)
        W.go = go
        R = explore(W, jobs=4)
        ctx.take(R)
    return R
