"""The server state machine: connect, views, SST, donor, sync, initialisation and disconnect."""
from srvsess import *

LOW = ("s_disconnected", "s_initializing", "s_initialized", "s_connected", "s_joiner")
VIEW = ("VIEW",)


def depth(st):
    n, f = 0, st.frames
    while f is not None:
        n, f = n + 1, f[0]
    return n


class Machine(ServerSession):
    def __init__(self, P, waiters=()):
        super().__init__(P)
        I = self.I
        self.waiters = waiters
        M = I.models
        M[SSV + "sst_before_init"] = lambda I, st, c: [(st, st.mon["sbi"])]
        for f in ("get_position", "get_view"):
            M[SSV + f] = self.m_byvalue
        for f in ("equal_membership", "is_member", "member_index"):
            M["wsrep::view::" + f] = self.m_view
            I.no_inline |= {g.key for g in P.by_name.get("wsrep::view::" + f, ())}
        for f in ("connect", "disconnect", "sst_sent", "sst_received"):
            M[PRV + f] = self.m_result
        M[SSV + "start_sst"] = self.m_result
        I.on_acquire = self.on_acquire
        self.on_wait = self.waiting
        self.statef = self.state_field()
        I.watch.add(self.statef)
        vec = [f["name"] for f in P.records["wsrep::server_state"]["fields"] if f["t"].startswith("std::vector<int,")]
        self.vec = vec[0] if len(vec) == 1 else None
        self.policy[("S", self.vec)] = "keep"
        I.keep.add(("S", self.vec))
        self.idf = ("S",) + self.field("wsrep::id")

    def state_field(self):
        c = [f["name"] for f in self.P.records["wsrep::server_state"]["fields"]
             if f["t"].replace("enum ", "") == "wsrep::server_state::state"]
        if len(c) != 1:
            raise AnalysisBroken("anchor vanished: state field of server_state (%s)" % c)
        return c[0]

    def field(self, t):
        c = [f["name"] for f in self.P.records["wsrep::server_state"]["fields"] if f["t"] == t]
        if len(c) != 1:
            raise AnalysisBroken("anchor vanished: %s field of server_state (%s)" % (t, c))
        return (c[0],)

    def extra_policy(self):
        pol = {}
        for p, t in self.I.leaves("wsrep::server_state"):
            if t == "wsrep::id":
                pol[("S",) + p] = "keep"
        for f in self.P.records["wsrep::server_state"]["fields"]:
            if f["t"] == "wsrep::view":
                for p, t in self.I.leaves("wsrep::view"):
                    if t.startswith("std::vector<"):
                        pol[("S", f["name"]) + p] = "keep"
        return pol

    def s(self, n):
        return self.SST[n]

    def state(self, st):
        v = self.I.norm(st, st.get(("S", self.statef)))
        if type(v) is not int:
            raise AnalysisBroken("server state unknown")
        return v

    def in_(self, st, *names):
        return self.state(st) in [self.SST[n] for n in names]

    # ------------------------------------------------------------ contracts
    def m_result(self, I, st, c):
        out = []
        alts = [(st, tuple(c.args))]
        if c.cname == PRV + "connect" and I.decide(st, I.norm(st, c.args[3])) is None:
            y = st.copy()
            alts = [(s, tuple(c.args[:3]) + (b,)) for s, b in ((st, 1), (y, 0)) if I.assume(s, c.args[3], bool(b))]
        for st, args in alts:
          for r in (0, 1):
            x = st.copy()
            x.log("%s:%d %s() -> %s" % (c.fn.short(), c.node["l"], c.cname.replace("wsrep::", ""), r))
            if c.cname == PRV + "disconnect":
                x.mon["#pdisc"] = 1
            I.emit(x, Ev("call", c.cname, ("P",), args, r, c.node, I))
            out.append((x, r))
        return out

    def m_byvalue(self, I, st, c):
        tmp = (("m", c.fn.sk, c.node["i"]),)
        st.clear(tmp)
        from interp import dom
        for p, t in I.leaves(c.node["t"]):
            st.put(tmp + p, I.sym(st, ("bv", c.node["i"]) + p, dom(self.P, t)))
        st.log("%s:%d %s()" % (c.fn.short(), c.node["l"], c.cname.replace("wsrep::", "")))
        I.emit(st, Ev("call", c.cname, ("SS",), tuple(c.args), ("l", tmp), c.node, I))
        return [(st, ("l", tmp))]

    def m_view(self, I, st, c):
        out = []
        o = I.objloc(st, c.node, c.obj)
        for r in (0, 1):
            x = st.copy()
            I.emit(x, Ev("call", c.cname, o, tuple(c.args), r, c.node, I))
            out.append((x, r - 1 if c.cname.endswith("member_index") else r))
        return out

    # ------------------------------------------------------------ other threads
    def other(self, st, fn):
        """as in ServerSession; a call that goes to sleep is suspended, its effects stay"""
        susp, self._susp = self._susp, []
        d = depth(st)
        top = st.frames, st.env, st.live

        def f(x):
            out = fn(x)
            for y in self._susp:
                while depth(y) > d:
                    parent, env, live = y.frames[:3]
                    y.frames, y.env, y.live = parent, dict(env), live
                y.log("-- sleeps --")
                out.append(y)
            return out
        try:
            return super().other(st, f)
        finally:
            self._susp = susp

    def waiting(self, I, st, m):
        w = st.mon.get("w")
        if w is not None and (self.state(st) == w or self.in_(st, "s_disconnecting", "s_disconnected")):
            x = st.copy()
            self.set_waiters(x, w, -1)
            x.mon["w"] = None
            x.log("-- waiting thread has seen the state --")
            out = [x]
            if w == self.SST["s_initializing"] and self.state(st) == w and not st.mon["ini"] and \
                    not st.mon.get("#int"):
                out += self.other(x.copy(), self.do_initialized)     # what it waited for
            return out
        if st.mon.get("#int"):
            self._susp.append(st)
            return []
        out = [st]
        if self.in_(st, "s_initializing") and not st.mon["ini"]:
            out += self.other(st.copy(), self.do_initialized)
        if not self.in_(st, "s_disconnecting", "s_disconnected") and not st.mon.get("#disc"):
            out += self.other(st.copy(), self.do_disconnect)
        return out

    def do_initialized(self, st):
        st.log("-- main thread --")
        st.mon["ini"] = 1
        return [s for k, v, s in self.api(st, "initialized", nparams=0)]

    def do_disconnect(self, st):
        st.log("-- other thread --")
        st.mon["#disc"] = 1
        sv = {k: st.mon.get(k) for k in ("#nd", "#pd")}
        out = []
        for k, v, s in self.api(st, "disconnect", nparams=0):
            for a, b in sv.items():
                if b is None:
                    s.mon.pop(a, None)
                else:
                    s.mon[a] = b
            out.append(s)
        return out

    def on_acquire(self, I, st, m):
        if m != ("Sm",) or st.mon.get("#int") or not self._nest or self.waiters:
            return [st]
        if not st.mon.get("#late"):
            st.mon["#late"] = 1      # the first acquisition: the same as before the call
            return [st]
        out = [st]
        if self.in_(st, "s_initializing") and not st.mon["ini"]:
            out += self.other(st.copy(), self.do_initialized)
        if not self.in_(st, "s_disconnecting", "s_disconnected") and not st.mon.get("#disc"):
            out += self.other(st.copy(), self.do_disconnect)
        return out

    # ------------------------------------------------------------ waiters
    def elem(self, st, idx):
        c = st.get(("S", self.vec))
        v = self.I.atom(st, ("el", "op[]", c, idx), ("I", 1, INF, EMPTYFS))
        return (("o", v[1]),)

    def set_waiters(self, st, idx, d=None):
        loc = self.elem(st, idx)
        if d is None:
            st.put(loc, 0)
        else:
            v = self.I.norm(st, st.get(loc))
            st.put(loc, v + d if type(v) is int else U)

    def seed(self, st):
        # gtid::undefined() refers to a constant made by the default constructor
        f = self.P.fn("wsrep::gtid::undefined", 0)
        r = self.I.run(f, st.copy(), None, [])
        if len(r) == 1 and type(r[0][2]) is tuple and r[0][2][0] == "l":
            st.put(r[0][2][1] + ("seqno_", "seqno_"), -1)
            st.put(r[0][2][1] + ("id_",), ("k", "undef"))
        if self.vec is None:
            return
        sid = ("f", ("S", self.vec))
        st.cons[sid] = ("I", INF, INF, EMPTYFS)
        st.put(("S", self.vec), ("s", sid, 0))
        for i in self.SST.values():
            self.set_waiters(st, i)
        if st.mon.get("w") is not None:
            self.set_waiters(st, st.mon["w"], 1)

    def waiters_left(self, st):
        """states with a wrong number of waiting threads"""
        out = []
        if self.vec is None:
            return out
        for n, i in self.SST.items():
            v = self.I.norm(st, st.get(self.elem(st, i)))
            if v != (1 if st.mon.get("w") == i else 0):
                out.append((n, v))
        return out

    # ------------------------------------------------------------ values
    def acc(self, st, name):
        """content of a gtid/id/view returned by an accessor (on a copy)"""
        f = self.P.fn(SRV + name, 0)
        x = st.copy()
        line = self.I.cur_line
        r = [y for y in self.I.run(f, x, ("p", ("S",)), []) if y[0] == "ret"]
        self.I.cur_line = line
        if len(r) != 1:
            raise AnalysisBroken("%s(): %d outcomes" % (name, len(r)))
        return r[0][1], r[0][2][1]

    def seq(self, st, loc):
        return self.I.norm(st, self.I.read(st, loc + ("seqno_", "seqno_"), "long"))

    def connected_seqno(self, st):
        x, loc = self.acc(st, "connected_gtid")
        return self.seq(x, loc)

    def member_id(self, st):
        """id of this server's member of the delivered view"""
        P = self.P
        x = st.copy()
        r = [y for y in self.I.run(P.fn("wsrep::view::members", 0), x, ("p", VIEW), []) if y[0] == "ret"]
        c = self.I.cell(r[0][1], r[0][2])
        own = self.I.norm(st, st.get(VIEW + ("own_index_",)))
        v = self.I.atom(st, ("el", "op[]", c, own), ("I", 1, INF, EMPTYFS))
        x = st.copy()
        r = [y for y in self.I.run(P.fn("wsrep::view::member::id", 0), x, ("p", (("o", v[1]),)), []) if y[0] == "ret"]
        return self.I.cell(r[0][1], r[0][2])

    def vseq(self, st, loc):
        """view seqno and state seqno of a view object"""
        return (self.I.norm(st, self.I.read(st, loc + ("view_seqno_", "seqno_"), "long")),
                self.I.norm(st, self.I.read(st, loc + ("state_id_", "seqno_", "seqno_"), "long")))

    def view(self, st, status, valid=True):
        """a delivered view"""
        I = self.I
        st.clear(VIEW)
        for p, t in I.leaves("wsrep::view"):
            if p[-1] == "seqno_" and "seqno_" in p:
                st.put(VIEW + p, I.sym(st, ("view",) + p, ("I", 0, INF, EMPTYFS)))
        st.put(VIEW + ("status_",), self.VST[status])
        ct = I.sym(st, ("ct", "members"), ("I", INF, INF, EMPTYFS))
        if status == "disconnected":
            st.put(VIEW + ("own_index_",), -1)
            st.put(VIEW + ("members_",), EMPTY_CONTENT)
        else:
            st.put(VIEW + ("members_",), ct)
            sz = I.atom(st, ("size", ct), ("I", 1, INF, EMPTYFS))
            own = I.sym(st, ("own",), ("I", 0, INF, EMPTYFS) if valid else ("I", -1, -1, EMPTYFS))
            st.put(VIEW + ("own_index_",), own)
            if valid:
                I.assume(st, I.cmp(st, "<", own, sz), True)
        return ("l", VIEW)

    # ------------------------------------------------------------ environment
    def start(self):
        out = []
        for sbi in (0, 1):
            st = self.construct()
            st.mon = {"sbi": sbi, "ini": 0, "ph": "off", "prim": 0, "sst": 0, "don": 0, "boot": 0, "rec": 0, "cd": 0, "w": None}
            self.seed(st)
            out.append(st)
        return out

    def step(self, out, st, name, args=(), nparams=None, then=None, dead=False):
        """one API call from st"""
        x = st.copy()
        x.mon["#op"] = name
        if name == "initialized":
            x.mon["ini"] = 1
        if name == "sst_received":
            x.mon["#err"] = args[1]
        if name == "connect":
            x.mon["#boot0"] = args[3]
        self.mon.begin(self, x, name)
        b = x.copy()
        outs = self.api(x, name, args, nparams)
        if name != "on_connect" and not self.in_(st, "s_disconnecting", "s_disconnected") and \
                not any(k == "ret" and not s.mon.get("#pdisc") for k, v, s in outs) and name != "disconnect":
            self.mon.stuck(self, b, name)
        for k, v, s in outs:
            s.mon.pop("#late", None)
            disc = s.mon.get("#pdisc")
            self.mon.done(self, b, s, name, k, v)
            for key in [k2 for k2 in s.mon if type(k2) is str and k2[0] == "#"]:
                del s.mon[key]
            if disc:
                s.mon["ph"] = "disc"
            if then is not None:
                then(s, k, v)
            if s.mon["ph"] == "off":
                if not s.mon["ini"] and name == "on_view":
                    s.mon["dead"] = 1       # the server goes down
                for f in ("prim", "sst", "don", "boot", "cd"):
                    s.mon[f] = 0
            s.clear(VIEW)
            out.append(s)

    def succ(self, st):
        I = self.I
        self.seed(st)
        m = st.mon
        ph = m["ph"]
        out = []
        go = lambda *a, **k: self.step(out, *a, **k)
        S = self.state(st)
        is_ = lambda *n: self.in_(st, *n)
        if self.waiters and m["w"] is None:
            for w in self.waiters:
                if S != self.SST[w] and not (is_("s_disconnecting", "s_disconnected") and ph != "off"):
                    x = st.copy()
                    x.mon["w"] = self.SST[w]
                    x.log("-- a thread waits for %s --" % w)
                    out.append(x)
        if ph == "off":
            if m.get("dead"):
                return out
            if not m["ini"] and not m["sbi"]:
                go(st, "initialized", nparams=0)
            else:
                for boot in (0, 1):
                    x = st.copy()
                    x.mon["boot"] = boot

                    def then(s, k, v):
                        s.mon["ph"] = "conn" if k == "ret" and I.must(s, v, 0) else "off"
                    go(x, "connect", (("l", ("CN",)), ("l", ("CA",)), ("l", ("SD",)), boot), then=then)
            return out
        if ph == "conn":
            x = st.copy()
            v = self.view(x, "primary", True)

            def then(s, k, v):
                s.mon["ph"] = "up" if k == "ret" and s.mon["ph"] != "disc" else s.mon["ph"]
            go(x, "on_connect", (v,), then=then)
            x = st.copy()
            v = self.view(x, "primary", False)
            go(x, "on_connect", (v,))

            def then(s, k, v):
                if s.mon["ph"] == "disc":
                    s.mon["cd"] = 1         # the connect event may still come
            go(st, "disconnect", nparams=0, then=then)
            return out
        if m.get("cd"):
            x = st.copy()
            v = self.view(x, "primary", True)
            x.mon["cd"] = 0
            go(x, "on_connect", (v,))
        if ph == "failed":
            go(st, "disconnect", nparams=0)
            return out
        up = ph == "up"

        def synced(s, k, v):
            s.mon["syn"] = 1
        if not m["sst"]:
            if not is_("s_initializing") or m["ini"]:
                x = st.copy()
                v = self.view(x, "primary")

                def then(s, k, v):
                    s.mon["prim"] = 1
                go(x, "on_view", (v, ("p", HPS)), then=then)
            if m["prim"]:
                x = st.copy()
                v = self.view(x, "non_primary")

                def then(s, k, v):
                    s.mon["prim"] = 0
                if not is_("s_joiner"):     # contract: a state transfer is finished first
                    go(x, "on_view", (v, ("p", HPS)), then=then)
                if (up and is_("s_joined", "s_synced")) or not up or \
                        is_("s_initialized") and m["sbi"] and not m.get("syn"):
                    go(st, "on_sync", nparams=0, then=synced)
            if up and is_("s_connected") and not m["prim"]:
                def then(s, k, v):
                    s.mon["sst"] = 1
                go(st, "prepare_for_sst", nparams=0, then=then)
                if not m["sbi"] or not m["ini"] or m.get("syn"):     # seed node
                    go(st, "on_sync", nparams=0, then=synced)
        else:
            for err in (0, 1):
                def then(s, k, v):
                    s.mon["sst"] = 0
                    if (err or k != "ret" or not I.must(s, v, 0)) and s.mon["ph"] != "disc":
                        s.mon["ph"] = "failed"
                go(st, "sst_received", (("l", ("CS",)), err), then=then)
        if up and is_("s_joined", "s_synced") and not m["don"] and m["prim"]:
            def then(s, k, v):
                if k == "ret" and I.must(s, v, 0):
                    s.mon["don"] = 1
            go(st, "start_sst", (("l", ("REQ",)), ("l", ("SG",)), 0), then=then)
        if m["don"]:
            def then(s, k, v):
                s.mon["don"] = 0
            for err in (0, -1):
                go(st, "sst_sent", (("l", ("SG",)), err), then=then)
        if is_("s_initializing") and not m["ini"]:
            go(st, "initialized", nparams=0)

        go(st, "disconnect", nparams=0)
        if not m["sst"]:
            for status in ("disconnected", "non_primary"):
                x = st.copy()
                v = self.view(x, "disconnected")
                x.put(VIEW + ("status_",), self.VST[status])

                def then(s, k, v):
                    s.mon["ph"] = "off"
                go(x, "on_view", (v, ("p", HPS)), then=then)
        return out
