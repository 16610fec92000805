"""Pausing and desyncing the provider."""
from interp import Monitor, Ev, U, INF, EMPTYFS
from srvsess import ServerSession, SRV, PRV
from explore import explore
from ir import AnalysisBroken


class PauseSession(ServerSession):
    def __init__(self, P):
        super().__init__(P)
        I = self.I
        M = I.models
        for f in ("desync", "resync", "resume"):
            M[PRV + f] = self.m_int
        M[PRV + "pause"] = self.m_pause
        M[SRV + "resume"] = self.m_resume
        I.on_acquire = self.on_acquire
        self.on_wait = self.waiting

    def m_int(self, I, st, c):
        out = []
        sh = c.cname.split("::")[-1]
        for r in (0, 1):
            x = st.copy()
            x.log("%s:%d provider.%s() -> %s" % (c.fn.short(), c.node["l"], sh, "failure" if r else "success"))
            I.emit(x, Ev("call", c.cname, ("P",), (), r, c.node, I))
            out.append((x, r))
        return out

    def m_pause(self, I, st, c):
        out = []
        for ok in (1, 0):
            x = st.copy()
            tmp = (("m", c.fn.sk, c.node["i"]),)
            x.clear(tmp)
            x.put(tmp + ("seqno_",), I.sym(x, ("pause", c.node["i"]), ("I", 1, INF, EMPTYFS)) if ok else -1)
            x.log("%s:%d provider.pause() -> %s" % (c.fn.short(), c.node["l"], "paused" if ok else "failed"))
            I.emit(x, Ev("call", c.cname, ("P",), (), ok, c.node, I))
            out.append((x, ("l", tmp)))
        return out

    def m_resume(self, I, st, c):
        """once the provider is resumed, the next pauser may come in before the caller goes on"""
        out = []
        for k, x, v in I.run(self.P.fn(SRV + "resume", 0), st, ("p", ("S",)), []):
            if k == "exc":
                out.append(("exc", x, v))
                continue
            out.append((x, v))
            m = x.mon
            if m.get("#int") or m.get("#noint") or not self._nest or "#done" in m or m["d"] >= 2 or m["p"]:
                continue
            y = x.copy()
            y.mon["#done"] = 1

            def f(z):
                z.log("-- other thread --")
                res = []
                for kk, vv, s in self.api(z, "desync_and_pause", nparams=0):
                    if kk == "ret" and s.mon.get("p"):
                        s.mon["by"] = "dp"
                        s.mon["dpd"] = int(s.mon["d"] > m["d"])
                        s.mon["#next"] = 1
                        res.append(s)
                return res
            out += [(z, U) for z in self.other(y, f)]
        return out

    # ---- other threads
    def waiting(self, I, st, m):
        if st.mon.get("#int"):
            return []        # the other thread sleeps; its caller goes on
        if st.mon.get("p"):
            out = [x for x in self.other(st, self.release)]
            return out
        self.mon.rep(I, st, "%s waits although the provider is not paused and nobody is about to pause it" %
                     "pause", I.where())
        return []

    def release(self, st):
        """whoever paused the provider resumes it"""
        out = []
        for k, v, s in self.api(st, "resume_and_resync" if st.mon.get("by") == "dp" else "resume", nparams=0):
            if k == "ret" and not s.mon.get("p"):
                s.mon["by"] = None
                out.append(s)
        return out

    def on_acquire(self, I, st, m):
        if m != ("Sm",) or st.mon.get("#int") or st.mon.get("#noint") or not self._nest:
            return [st]
        if "#done" in st.mon:
            return [st]
        out = [st]
        for name in ("desync", "pause"):
            if name == "desync" and st.mon["d"] >= 2:
                continue
            x = st.copy()
            x.mon["#done"] = 1

            def f(y, name=name):
                y.log("-- other thread --")
                return [s for k, v, s in self.api(y, name, nparams=0) if self.ok(name, k, v, s)]
            out += self.other(x, f)
        return out

    def ok(self, name, k, v, s):
        if name == "pause" and s.mon.get("p"):
            s.mon["by"] = "p"
        return True

    # ---- exploration
    def start(self):
        st = self.construct()
        st.mon = {"d": 0, "p": 0, "by": None}
        return [st]

    def succ(self, st):
        out = []
        m = st.mon
        ops = []
        if m["d"] < 2:
            ops.append("desync")
            ops.append("desync_and_pause")
        if m["d"] and not (m["d"] == 1 and m["by"] == "dp" and m.get("dpd")):
            ops.append("resync")
        ops.append("pause")
        if m["p"] and m["by"] == "p":
            ops.append("resume")
        if m["p"] and m["by"] == "dp":
            ops.append("resume_and_resync")
        for op in ops:
            x = st.copy()
            before = dict(m)
            for c in ("#nd", "#nr", "#np", "#nres"):
                x.mon[c] = 0
            for k, v, s in self.api(x, op, nparams=0):
                self.mon.done(self, s, before, op, k, v)
                dead = k == "exc" or s.mon.get("#nrf")
                for c in ("#nd", "#nr", "#np", "#nres", "#rf", "#nrf", "#df", "#pf", "#done", "#next"):
                    s.mon.pop(c, None)
                if dead:
                    continue      # the server has to be restarted
                out.append(s)
        return out


class PauseMon(Monitor):
    kinds = ("call", "relock", "reunlock")
    watch = ()

    def __init__(self, prop):
        self.prop = prop

    def rep(self, I, st, msg, where=None, rule="pause and desync balance"):
        I.report(self.prop, rule, st, msg, where=where)

    def on(self, I, st, ev):
        m = st.mon
        if ev.kind != "call" or not ev.name.startswith(PRV):
            return
        sh = ev.name[len(PRV):]
        if sh not in ("desync", "resync", "pause", "resume"):
            return
        I.notes.setdefault("provider call site", set()).add("%s at %s" % (sh, I.where()))
        mine = not m.get("#int")
        if sh == "desync":
            if mine:
                m["#nd"] = min(m.get("#nd", 0) + 1, 3)
                m["#df"] = ev.ret
            if not ev.ret:
                m["d"] = min(m["d"] + 1, 4)
        elif sh == "resync":
            if mine:
                m["#nr"] = min(m.get("#nr", 0) + 1, 3)
                m["#rf"] = ev.ret
            if not m["d"]:
                self.rep(I, st, "provider resynced although it is not desynced")
            m["d"] = max(m["d"] - 1, 0)
        elif sh == "pause":
            if m["p"]:
                self.rep(I, st, "provider paused although it is already paused")
            if mine:
                m["#np"] = min(m.get("#np", 0) + 1, 3)
                m["#pf"] = not ev.ret
            m["p"] = ev.ret
            if I.held(st, ("Sm",)):
                self.rep(I, st, "provider paused while the server mutex is held")
        else:
            if mine:
                m["#nres"] = min(m.get("#nres", 0) + 1, 3)
                m["#nrf"] = ev.ret
            if not m["p"]:
                self.rep(I, st, "provider resumed although it is not paused")
            if not ev.ret:
                m["p"] = 0

    def done(self, W, s, b, op, k, v):
        I = W.I
        m = s.mon
        where = SRV + op
        I.notes.setdefault("operation outcome", set()).add("%s -> %s" % (op, k))
        paused = None
        if op in ("pause", "desync_and_pause"):
            if k == "exc":
                # only resync() after a failed pause may throw
                if not m.get("#rf"):
                    self.rep(I, s, "%s throws although nothing failed" % op, where)
            else:
                loc = v[1] if type(v) is tuple and v[0] in ("l", "p") else None
                q = I.read(s, loc + ("seqno_",), "long") if loc else v
                paused = not I.may(s, q, -1)
                if not paused and not I.must(s, q, -1):
                    raise AnalysisBroken("result of %s is neither defined nor undefined" % op)
                if paused != (m["#np"] == 1 and not m.get("#pf")) and not m.get("#done"):
                    self.rep(I, s, "%s reports %s but the provider is %spaused" %
                             (op, "a position" if paused else "failure", "" if m["p"] else "not "), where)
                if m["#np"] != 1:
                    self.rep(I, s, "%s pauses the provider %d times" % (op, m["#np"]), where)
                if paused:
                    m["by"] = "p" if op == "pause" else "dp"
                    m["dpd"] = int(op != "pause" and not m.get("#df"))
        if op == "desync":
            if m["#nd"] != 1:
                self.rep(I, s, "desync calls the provider %d times" % m["#nd"], where)
            if k == "ret" and I.must(s, v, 0) == bool(m.get("#df")):
                self.rep(I, s, "desync result disagrees with the provider", where)
        elif op == "desync_and_pause":
            if m["#nd"] != 1:
                self.rep(I, s, "desync_and_pause desyncs %d times" % m["#nd"], where)
            if paused is False and not m.get("#df") and m["#nr"] != 1:
                self.rep(I, s, "desync_and_pause fails but leaves the provider desynced", where)
            if m.get("#df") and m["#nr"]:
                self.rep(I, s, "desync_and_pause resyncs although it did not desync", where)
            if paused and m["#nr"]:
                self.rep(I, s, "desync_and_pause succeeds but the provider is resynced", where)
        elif op == "resync":
            if m["#nr"] != 1:
                self.rep(I, s, "resync calls the provider %d times" % m["#nr"], where)
            if (k == "exc") != bool(m.get("#rf")):
                self.rep(I, s, "resync result disagrees with the provider", where)
        elif op in ("resume", "resume_and_resync"):
            if m["#nres"] != 1:
                self.rep(I, s, "%s resumes the provider %d times" % (op, m["#nres"]), where)
            if op == "resume":
                if (k == "exc") != bool(m.get("#nrf")):
                    self.rep(I, s, "resume result disagrees with the provider", where)
            else:
                if k == "exc":
                    self.rep(I, s, "resume_and_resync throws", where)
                want = int(bool(b.get("dpd")) and not m.get("#nrf"))
                if m["#nr"] != want:
                    self.rep(I, s, "resume_and_resync %s although desync_and_pause %s" %
                             ("resyncs" if m["#nr"] else "does not resync",
                              "desynced" if b.get("dpd") else "did not desync"), where)
            if not m["p"]:
                m["by"] = None
                m["dpd"] = 0
        if I.held(s, ("Sm",)):
            self.rep(I, s, "%s returns with the server mutex held" % op, where)


def run(ctx):
    P = ctx.program()
    W = PauseSession(P)
    W.mon = PauseMon(ctx.prop)
    W.I.add_monitor(W.mon)
    R = explore(W, jobs=4)
    ctx.take(R)
    return R
