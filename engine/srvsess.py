"""A server_state object over its lifetime: constructor, then every allowed sequence of calls."""
from server import *
from world import World

SS = "wsrep::server_service::"


class ServerSession(ServerWorld):
    """S is built by the real constructor; canonical states keep its scalar fields."""
    CAP = 4

    def __init__(self, P):
        super().__init__(P)
        self.CST = P.enum("wsrep::client_state::state")
        self.VST = P.enum("wsrep::view::status")
        I = self.I
        I.inline_virtual = I.inline_virtual | {"wsrep::server_state"}
        self.policy = {}
        scal = ("int", "unsigned int", "long", "unsigned long", "bool", "size_t")
        for p, t in I.leaves("wsrep::server_state"):
            loc = ("S",) + p
            if t in scal or t in P.enums or t.rstrip("&* ") in P.enums:
                self.policy[loc] = "cnt"
            elif p[-1] == "seqno_" or "seqno" in t:
                self.policy[loc] = "def"
            elif t.startswith("std::map") or t.startswith("std::deque"):
                self.policy[loc] = "cont"
            elif "&" in t or t.endswith("*") or t.startswith("std::unique_ptr"):
                self.policy[loc] = "keep"
        for f in P.records["wsrep::server_state"]["fields"]:
            if f["t"].endswith("&") or f["t"].startswith("std::unique_ptr"):
                self.policy[("S", f["name"])] = "keep"
        self.policy.update(self.extra_policy())
        I.keep = {k for k, v in self.policy.items() if v != "drop"}
        self._nest = 0
        self._susp = None

    def extra_policy(self):
        return {}

    ERR = {}

    def active(self, st):
        return True

    def canon(self, st):
        I = self.I
        for loc, pol in self.policy.items():
            if pol == "cnt":
                v = st.get(loc)
                if v is not None:
                    v = I.norm(st, v)
                    if type(v) is int and abs(v) > 16:
                        st.put(loc, ("s", ("big", loc), 0))
                        st.cons[("big", loc)] = ("I", 17, INF, EMPTYFS)
        pol = self.policy
        self.policy = {k: "keep" if v == "cnt" else v for k, v in pol.items()}
        try:
            return World.canon(self, st)
        finally:
            self.policy = pol

    def construct(self):
        """server_state right after construction"""
        st = St()
        f = [g for g in self.P.by_name.get("wsrep::server_state::server_state", ()) if len(g.params) > 3]
        if len(f) != 1:
            raise AnalysisBroken("anchor vanished: server_state constructor")
        f = f[0]
        args = []
        for i, p in enumerate(f.params):
            t = p["t"]
            if "wsrep::mutex" in t:
                args.append(("l", ("Sm",)))
            elif "condition_variable" in t:
                args.append(("l", ("Sc",)))
            elif "server_service" in t:
                args.append(("l", ("SS",)))
            elif "rollback_mode" in t:
                args.append(0)
            elif t.endswith("*"):
                args.append(("p", ("ENC",)))
            elif p.get("ref"):
                args.append(("l", ("carg%d" % i,)))
            else:
                args.append(4)
        r = self.I.run(f, st, ("p", ("S",)), args)
        if len(r) != 1:
            raise AnalysisBroken("server_state constructor: %d outcomes" % len(r))
        st = r[0][1]
        for fl in self.P.records["wsrep::server_state"]["fields"]:
            if fl["t"].startswith("std::unique_ptr"):
                st.put(("S", fl["name"]), ("p", ("P",)))
        for r in list(st.store):
            if type(r) is str and r.startswith("carg"):
                st.clear((r,))
        return st

    # ------------------------------------------------------------ calls
    def api(self, st, name, args=(), nparams=None, ptypes=None):
        """[(kind, value, state)]: kind 'ret' or 'exc'"""
        sn = name.split("::")[-1]
        st.log(">> server_state::%s" % sn)
        self._nest += 1
        try:
            out = []
            for k, s, v in self.call(st, name if "::" in name else SRV + name, args, nparams, ptypes):
                s.log("<< %s%s" % (sn, " throws " + str(v) if k == "exc" else ""))
                out.append((k, v, s))
            return out
        finally:
            self._nest -= 1

    def other(self, st, fn):
        """run fn(st) -> [st] as another thread (locks held by this thread stay with it)"""
        I = self.I
        stack, I.stack = I.stack, []
        line = I.cur_line
        held = st.mon.get("#held", EMPTYFS)
        st.mon.pop("#held", None)
        st.mon["#int"] = 1
        # functions may be entered again by the other thread: its locals are not ours
        loc = [r for r in st.store if type(r) is tuple and r[0] in ("v", "m")]
        st.mon["#saved"] = tuple((r, p, v) for r in loc for p, v in st.store[r].d.items())
        for r in loc:
            del st.store[r]
        try:
            out = []
            for x in fn(st):
                x.mon.pop("#int", None)
                for r in [r for r in x.store if type(r) is tuple and r[0] in ("v", "m")]:
                    del x.store[r]
                for r, p, v in x.mon.pop("#saved"):
                    x.put((r,) + p, v)
                if held:
                    x.mon["#held"] = held
                else:
                    x.mon.pop("#held", None)
                out.append(x)
            return out
        finally:
            I.stack = stack
            I.cur_line = line
