"""Analysis of the server side: functions of server_state from arbitrary server states.

S is a wsrep::server_state whose fields start out unconstrained (a symbol per field); SS its
service object, P the provider, HPS the high priority service (applier) the provider calls with.
"""
import ir
from interp import Interp, St, Ev, U, is_sym, EMPTY_CONTENT, INF, EMPTYFS, Limit, Monitor, c_refine
from ir import AnalysisBroken

HPSV = "wsrep::high_priority_service::"
SSV = "wsrep::server_service::"
PRV = "wsrep::provider::"
SRV = "wsrep::server_state::"
HPS = ("HPS",)


class ServerWorld:
    def __init__(self, P):
        self.P = P
        self.I = I = Interp(P)
        I.world = self
        self.SST = P.enum("wsrep::server_state::state")
        self.SSTN = {v: k.split("::")[-1] for k, v in self.SST.items()}
        self.PST = P.enum("wsrep::provider::status")
        self.TST = P.enum("wsrep::transaction::state")
        pre = "wsrep::provider::flag::"
        self.FLAG = {k[1][len(pre):]: v["val"] for k, v in P.globals.items()
                     if k[0] == "qn" and k[1].startswith(pre) and type(v.get("val")) is int}
        if len(self.FLAG) < 10:
            raise AnalysisBroken("anchor vanished: write set flags (%d found)" % len(self.FLAG))
        self.watching = False
        self.errf = P.field_of("wsrep::mutable_buffer", "std::vector<char")
        M = I.models
        for f in ("apply_write_set", "apply_toi", "apply_nbo_begin"):
            M[HPSV + f] = self.m_apply
        for f in ("log_dummy_write_set", "adopt_apply_error"):
            M[HPSV + f] = self.m_take_error
        M[SSV + "streaming_applier_service"] = self.m_new_sa
        M["wsrep::condition_variable::wait"] = self.m_wait
        self.on_wait = None      # (I, st, mutex) -> [st]

    def base(self):
        st = St()
        st.put(("S", "server_service_"), ("l", ("SS",)))
        st.put(("S", "mutex_"), ("l", ("Sm",)))
        st.put(("S", "cond_"), ("l", ("Sc",)))
        st.put(("S", "provider_"), ("p", ("P",)))
        return st

    def m_apply(self, I, st, c):
        """contract: success leaves the error buffer empty; a failure may or may not fill it."""
        out = []
        loc = c.args[2][1] if type(c.args[2]) is tuple and c.args[2][0] in ("l", "p") else None
        if loc is None:
            raise AnalysisBroken("error buffer of %s is not an object" % c.cname)
        for r, size in ((0, 0), (1, 0), (1, 1)):
            x = st.copy()
            x.clear(loc)
            if size:
                ct = I.sym(x, ("ct", "apply_err"), ("I", INF, INF, EMPTYFS))
                x.put(loc + (self.errf,), ct)
                I.atom(x, ("size", ct), ("I", 1, INF, EMPTYFS))
            else:
                x.put(loc + (self.errf,), EMPTY_CONTENT)
            x.log("%s:%d %s() -> %s%s" % (c.fn.short(), c.node["l"], c.cname.replace("wsrep::", ""), r,
                                          " (with error description)" if size else ""))
            I.emit(x, Ev("call", c.cname, I.objloc(x, c.node, c.obj), tuple(c.args) + (size,), r, c.node, I))
            out.append((x, r))
        return out

    def m_take_error(self, I, st, c):
        """contract: the error buffer is read (and may be consumed), an empty one stays empty."""
        loc = None
        for a in c.args:
            if type(a) is tuple and a[0] in ("l", "p") and len(a[1]) and st.get(a[1] + (self.errf,)) is not None:
                loc = a[1]
        old = st.get(loc + (self.errf,)) if loc is not None else None
        out = []
        r = I.opaque(c.fn, st, c.node, c.obj, c.args, [])
        for x, v in (r if type(r) is list else [(st, r)]):
            if loc is not None:
                x.put(loc + (self.errf,), old)
            out.append((x, v))
        return out

    def m_new_sa(self, I, st, c):
        v = I.sym(st, ("newsa", c.node["i"]), ("I", 1, INF, EMPTYFS))
        st.log("%s:%d streaming_applier_service()" % (c.fn.short(), c.node["l"]))
        I.emit(st, Ev("call", c.cname, ("SS",), tuple(c.args), v, c.node, I))
        return [(st, v)]

    def m_wait(self, I, st, c):
        lk = c.args[0]
        mm = st.get(lk[1] + ("#m",)) if type(lk) is tuple and lk[0] == "l" else None
        m = mm[1] if type(mm) is tuple else ("Sm",)
        I.emit(st, Ev("wait", c.cname, I.objloc(st, c.node, c.obj), (m,), None, c.node, I))
        I.unlock(st, m)
        sts = self.on_wait(I, st, m) if self.on_wait else [st]
        out = []
        for s in sts:
            out.extend((x, U) for x in I.lock(s, m))
        return out

    def call(self, st, name, args=(), nparams=None, ptypes=None, this=("p", ("S",))):
        f = self.P.fn(name, nparams if nparams is not None else (len(args) if args else None), ptypes)
        args = list(args)
        for i in range(len(args), len(f.params)):
            p = f.params[i]
            args.append(("l", ("arg%d" % i,)) if p.get("ref") else U)
        return self.I.run(f, st, this, args)
