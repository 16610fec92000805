"""A session executing operations in total order isolation (TOI, NBO) or with the node desynced (RSU)."""
from world import *

CSN = "wsrep::client_state::"
SRV = "wsrep::server_state::"
PRV = "wsrep::provider::"
META = ("gtid_", "seqno_", "seqno_")


class IsoSession(World):
    def __init__(self, P, hp=False, **kw):
        pol = {}
        for m in ("toi_meta_", "nbo_meta_"):
            for p, t in Interp(P).leaves("wsrep::ws_meta"):
                if p[-1] == "seqno_" and p[0] == "gtid_" or p[0] == "gtid_" and "id_" in p:
                    pol[("C", m) + p] = "def" if p[-1] == "seqno_" else "keep"
        for p, t in Interp(P).leaves("wsrep::gtid"):
            pol[("C", "last_written_gtid_") + p] = "call"
        super().__init__(P, policy_extra=pol, rollback_modes=(1,))
        self.hp = hp
        self.interference = False
        M = self.I.models
        M[PRV + "enter_toi"] = self.m_enter
        M[SRV + "pause"] = self.m_pause
        for f in ("resume", "resync"):
            M[SRV + f] = self.m_resume
        self.I.on_acquire = None

    # ------------------------------------------------------------ contracts
    def m_enter(self, I, st, c):
        """provider.hpp: success orders the operation and fills the meta data; a failed call may have
        ordered it nevertheless (then it must be left), otherwise the meta data comes back undefined
        or as it was given."""
        a = c.args[3]
        loc = a[1] if type(a) is tuple and a[0] in ("l", "p") else None
        if loc is None:
            raise AnalysisBroken("meta data argument of enter_toi is not an object")
        given = I.norm(st, I.read(st, loc + META, "long"))
        out = []
        for nm, val in sorted(self.PST.items(), key=lambda x: x[1]):
            nm = nm.split("::")[-1]
            for v in ("ord",) if nm == "success" else ("ord", "clear"):
                x = st.copy()
                for p, t in I.leaves("wsrep::ws_meta"):
                    if v == "clear":
                        x.clear(loc + p)
                    elif not (p[-1] == "seqno_" and p[0] == "gtid_"):
                        x.clear(loc + p)
                if v == "ord":
                    s = I.sym(x, ("toi", c.node["i"], st.mon.get("#n", 0)), ("I", 1, INF, EMPTYFS))
                    x.put(loc + META, s)
                    g = self.gid(loc)
                    x.put(g, I.sym(x, ("tg", c.node["i"], st.mon.get("#n", 0)), ("I", 1, INF, EMPTYFS)))
                else:
                    s = 0
                    for k, y, r in I.run(self.P.fn("wsrep::ws_meta::ws_meta", 0), x, ("p", loc), []):
                        x = y
                x.log("%s:%d provider.enter_toi() -> %s%s" % (c.fn.short(), c.node["l"], nm,
                                                             "" if nm == "success" else " (%s)" % v))
                I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args) + (given, v, s), val, c.node, I))
                out.append((x, val))
        return out

    def gid(self, loc):
        c = [p for p, t in self.I.leaves("wsrep::ws_meta") if p[0] == "gtid_" and p[-1] != "seqno_"]
        return loc + c[0]

    def m_pause(self, I, st, c):
        out = []
        for ok in (1, 0):
            x = st.copy()
            tmp = (("m", c.fn.sk, c.node["i"]),)
            x.clear(tmp)
            x.put(tmp + ("seqno_",), I.sym(x, ("pause", c.node["i"]), ("I", 1, INF, EMPTYFS)) if ok else N_UNDEF)
            x.log("%s:%d server pause() -> %s" % (c.fn.short(), c.node["l"], "paused" if ok else "failed"))
            I.emit(x, Ev("call", c.cname, ("S",), tuple(c.args), ok, c.node, I))
            out.append((x, ("l", tmp)))
        return out

    def m_resume(self, I, st, c):
        out = []
        for ok in (1, 0):
            x = st.copy()
            x.log("%s:%d server %s() %s" % (c.fn.short(), c.node["l"], c.cname.split("::")[-1],
                                            "" if ok else "throws"))
            I.emit(x, Ev("call", c.cname, ("S",), tuple(c.args), ok, c.node, I))
            out.append((x, U) if ok else ("exc", x, "wsrep::runtime_error"))
        return out

    # ------------------------------------------------------------ observations
    def obs(self, st, name):
        """(seqno value of a ws_meta accessor)"""
        f = self.P.fn(CSN + name, 0)
        x = st.copy()
        r = self.I.run(f, x, ("p", ("C",)), [])
        if len(r) != 1:
            raise AnalysisBroken("%s(): %d outcomes" % (name, len(r)))
        k, x, v = r[0]
        if type(v) is tuple and v[0] in ("l", "p"):
            return self.I.norm(x, self.I.read(x, v[1] + META, "long")), v[1]
        return self.I.norm(x, v), None

    def nbo(self, st):
        fs = [f["name"] for f in self.P.records["wsrep::client_state"]["fields"] if f["t"] == "wsrep::ws_meta"]
        toi = self.obs(st, "toi_meta")[1][1:]
        fs = [f for f in fs if (f,) != toi]
        if len(fs) != 1:
            raise AnalysisBroken("anchor vanished: meta data of the NBO in client_state (%s)" % fs)
        return self.I.norm(st, self.I.read(st, ("C", fs[0]) + META, "long"))

    def mode_is(self, st, m):
        v, _ = self.obs(st, "mode")
        return self.I.must(st, v, self.MODE[m])

    # ------------------------------------------------------------ protocol
    def start(self, keep=0):
        out = []
        for st in self.init():
            if self.hp:
                st.put(("C", "mode_"), self.MODE["m_high_priority"])
            cur = [st]
            seq = [("open", None), ("before_command", None), ("before_statement", None)]
            for nm, n in seq[:2 if self.hp else 3]:
                nxt = []
                for s in cur:
                    for r, x in self.api(s, CSN + nm, args=(keep,) if nm == "before_command" else ()):
                        if not r:
                            nxt.append(x)
                cur = nxt
            for s in cur:
                s.mon["ph"] = "hp" if self.hp else "stmt"
                s.mon["bal"] = (0, 0)
                s.mon["in"] = 0
                out.append(s)
        if not out:
            raise AnalysisBroken("no session state for isolation")
        return out

    def succ(self, st):
        st.mon.pop("#toi", None)
        st.mon["#n"] = 0
        # the data describing the operation in progress
        if st.mon.get("in"):
            st.mon["#toi"] = self.obs(st, "toi_meta")[0]
        st.mon["#nbo"] = self.nbo(st)
        out = getattr(self, "ph_" + st.mon["ph"])(st)
        for s in out:
            for k in ("#toi", "#nbo", "#n", "#calls", "#err", "#last", "#asked"):
                s.mon.pop(k, None)
        return out

    def go(self, st, name, ok, err=None, args=(), nparams=None):
        out = []
        x = st.copy()
        for i, a in enumerate(args):
            if a == "err":
                x.mon["#err"] = ("l", ("ERRBUF",))
        args = tuple(("l", ("ERRBUF",)) if a == "err" else a for a in args)
        for r, s in self.api(x, CSN + name, args, nparams):
            good = r is None or r == 0
            for m in self.I.by_event.get("done", ()):
                m.done(self, s, st, name, r)
            s.mon["ph"] = ok if good or err is None else err
            out.append(s)
        return out

    def fn_args(self, name, known):
        f = self.P.fn(CSN + name)
        return f

    def ph_stmt(self, st):
        out = self.go(st, "enter_toi_local", "toi", "fail")
        out += self.go(st, "begin_rsu", "rsu", "fail")
        out += self.go(st, "begin_nbo_phase_one", "nbo1", "fail")
        x = st.copy()
        x.put(("NBOM",) + META, self.I.sym(x, ("nbom",), ("I", 1, INF, EMPTYFS)))
        x.put(self.gid(("NBOM",)), self.I.sym(x, ("nbog",), ("I", 1, INF, EMPTYFS)))
        x.mon["#nbo"] = self.I.norm(x, x.get(("NBOM",) + META))
        out += self.go(x, "enter_nbo_mode", "nbo", args=(("l", ("NBOM",)),))
        return out

    def ph_fail(self, st):
        out = self.go(st, "after_statement", "stmt2")
        return out

    def ph_stmt2(self, st):
        # the failed statement is over; its error is delivered with the result, the next command is clean
        out = []
        for s in self.go(st, "after_command_before_result", "x"):
            for s2 in self.go(s, "after_command_after_result", "x"):
                for s3 in self.go(s2, "before_command", "x", args=(0,)):
                    out += self.go(s3, "before_statement", "stmt")
        return out

    def ph_toi(self, st):
        return self.go(st, "leave_toi_local", "fail", args=("err",))

    def ph_rsu(self, st):
        return self.go(st, "end_rsu", "fail")

    def ph_nbo1(self, st):
        return self.go(st, "end_nbo_phase_one", "nbo", args=("err",))

    def ph_nbo(self, st):
        return self.go(st, "begin_nbo_phase_two", "nbo2", "fail")

    def ph_nbo2(self, st):
        return self.go(st, "end_nbo_phase_two", "fail", args=("err",))

    def ph_hp(self, st):
        x = st.copy()
        x.put(("TOIM",) + META, self.I.sym(x, ("toim",), ("I", 1, INF, EMPTYFS)))
        x.put(self.gid(("TOIM",)), self.I.sym(x, ("toig",), ("I", 1, INF, EMPTYFS)))
        x.mon["#toi"] = self.I.norm(x, x.get(("TOIM",) + META))
        x.mon["in"] = 1
        return self.go(x, "enter_toi_mode", "hptoi", args=(("l", ("TOIM",)),))

    def ph_hptoi(self, st):
        return self.go(st, "leave_toi_mode", "hp")
