"""Lock discipline: must-lockset dataflow over the CFG of every function, in every calling context (locks held on
entry, thread role) reachable from the interface of sessions and of the server."""
from ir import AnalysisBroken
from wakeups import Wakeups, CASTS, WAITC

SRV, CLI, TRX = "wsrep::server_state", "wsrep::client_state", "wsrep::transaction"
CLASSES = (SRV, CLI, TRX)
UL = "unique_lock<wsrep::mutex>"
# sessions: called by threads other than the one that executes the session's statements
OTHERS = ("bf_abort", "total_order_bf_abort")
# sessions: calls that make a transaction or session known; nobody else has a reason to look at it before they return
INIT = ("open", "start_transaction", "adopt_transaction", "clone_transaction_for_replay", "restore_xid", "assign_xid",
        "next_fragment", "set_streaming_key", "enable_streaming")
# XA: the session ends a transaction of a session which has gone away
BY_XID = ("commit_by_xid", "rollback_by_xid")
LOGGING = "debug_log"
PAUSE = "wsrep::provider::pause"
# calls that wait for other threads or other nodes, or whose implementation calls back into the library
BLOCKING = {
    "wsrep::provider": {"certify", "commit_order_enter", "enter_toi", "leave_toi", "pause", "connect", "disconnect",
                        "causal_read", "wait_for_gtid", "desync", "sst_sent"},
    "wsrep::server_service": {"sst_request", "start_sst", "wait_committing_transactions", "recover_streaming_appliers",
                              "streaming_applier_service", "storage_service", "get_view"},
    "wsrep::client_service": {"bf_rollback", "replay", "replay_unordered", "commit_by_xid", "remove_fragments",
                              "prepare_data_for_replication", "prepare_fragment_for_replication"},
    "wsrep::high_priority_service": {"apply_write_set", "apply_toi", "apply_nbo_begin", "commit", "start_transaction",
                                     "append_fragment_and_commit", "log_dummy_write_set", "remove_fragments",
                                     "next_fragment"},
}


class Locking(Wakeups):
    def __init__(self, P, ctx):
        super().__init__(P, ctx)
        self.par = {}
        self.flow = {}          # fn key -> {node id: frozenset(of lock variables held)}
        self.ctxs = {}          # (fn key, entry locks, role) -> True
        self.access = []        # (field, 'r'|'w', locks, role, fn, node)
        self.bad = set()

    # ------------------------------------------------------------ helpers
    def parents(self, f):
        p = self.par.get(f.key)
        if p is None:
            p = self.par[f.key] = {}
            for n in f.nodes.values():
                for k, c in enumerate(n.get("c", ())):
                    p[c] = (n, k)
                if "obj" in n:
                    p[n["obj"]] = (n, "obj")
        return p

    def lockvar(self, f, i):
        n = self.strip(f, i)
        if n and n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            return n["d"]
        return None

    def is_lock(self, t):
        return UL in t and "*" not in t

    def locks_of(self, f):
        """lock variable -> mutex"""
        out = {}
        for n in f.nodes.values():
            if n["k"] == "DeclStmt":
                for v in n.get("vars", ()):
                    if self.is_lock(v.get("t", "")) and "init" in v:
                        c = self.strip(f, v["init"])
                        a = c.get("c", []) if c else []
                        m = self.mutex(f, a[0]) if a else None
                        if m is None:
                            if c is not None and c.get("lv") and self.lockvar(f, v["init"]) is not None:
                                out[v["d"]] = ("alias", self.lockvar(f, v["init"]))
                                continue
                            raise AnalysisBroken("cannot tell the mutex locked at %s" % self.where(f, n))
                        out[v["d"]] = m
        return out

    def mutex(self, f, i):
        m = self.member(f, i)
        if m and "mutex" in m[2]:
            return m[0]
        return None

    # ------------------------------------------------------------ intraprocedural must-locks
    def dataflow(self, f, pheld):
        """{node id: lock variables held before it, or None}, exits; pheld: {param d: mutex}"""
        lv = dict(self.locks_of(f))
        for d, m in pheld.items():
            lv[d] = m
        for d, m in list(lv.items()):
            while type(m) is tuple:
                m = lv.get(m[1])
            lv[d] = m
        init = frozenset(pheld)
        IN = {f.entry: init}
        at = {}
        exits = None
        work = [f.entry]
        while work:
            b = work.pop()
            s = set(IN[b])
            blk = f.blocks[b]
            for e in blk["e"]:
                if "dtorv" in e:
                    s.discard(e["dtorv"])
                    continue
                if "s" not in e:
                    continue
                n = f.nodes[e["s"]]
                at[e["s"]] = frozenset(s)
                k = n["k"]
                if k == "DeclStmt":
                    for v in n.get("vars", ()):
                        if v["d"] in lv and self.is_lock(v.get("t", "")):
                            c = self.strip(f, v["init"])
                            a = c.get("c", [])
                            if len(a) == 1:
                                if lv[v["d"]] in {lv[x] for x in s}:
                                    self.problem("recursive", f, n, "mutex of %s locked while it is held" %
                                                 self.short(lv[v["d"]]))
                                s.add(v["d"])
                            elif len(a) > 1 and "adopt" in str(f.nodes.get(a[1], {}).get("t", "")):
                                s.add(v["d"])
                elif "obj" in n and n.get("meth") in ("lock", "unlock", "try_lock", "release") and UL in n.get("cls", ""):
                    d = self.lockvar(f, n["obj"])
                    if d is None or d not in lv:
                        continue
                    if n["meth"] == "lock":
                        if d in s:
                            self.problem("recursive", f, n, "lock of %s taken again while it is owned" %
                                         self.short(lv[d]))
                        s.add(d)
                    elif n["meth"] == "unlock":
                        if d not in s:
                            self.problem("unowned", f, n, "lock of %s released but not owned on every path" %
                                         self.short(lv[d]))
                        s.discard(d)
                elif n.get("cname") == WAITC:
                    d = self.lockvar(f, n["c"][0]) if n.get("c") else None
                    if d is not None and d in lv and d not in s:
                        self.problem("unowned", f, n, "waits without owning the lock of %s" % self.short(lv[d]))
            out = frozenset(s)
            if b == f.exit:
                exits = out if exits is None else exits & out
            for x in blk["s"]:
                if x is None:
                    continue
                new = out if x not in IN else IN[x] & out
                if x not in IN or new != IN[x]:
                    IN[x] = new
                    work.append(x)
        return at, lv, IN.get(f.exit)

    def short(self, m):
        return (m or "?").replace("wsrep::", "")

    def problem(self, kind, f, n, msg):
        self.bad.add((kind, self.where(f, n), msg))

    # ------------------------------------------------------------ accesses
    def kind_of(self, f, n):
        """read or write of the field a MemberExpr denotes"""
        par = self.parents(f)
        i = n["i"]
        while True:
            p = par.get(i)
            if p is None:
                return "r"
            q, k = p
            if q["k"] in CASTS:
                if q.get("ck") == "LValueToRValue":
                    return "r"
                i = q["i"]
                continue
            if q["k"] == "MemberExpr":
                if q.get("field"):
                    i = q["i"]       # part of the object
                    continue
                i = q["i"]           # bound member function: the call has the object as obj
                return "r"
            if q["k"] in ("BinaryOperator", "CompoundAssignOperator") and q.get("op", "").endswith("=") and \
                    q["op"] not in ("==", "!=", "<=", ">="):
                return "w" if k == 0 else "r"
            if q["k"] == "UnaryOperator" and q.get("op") in ("++", "--"):
                return "w"
            if q["k"] == "UnaryOperator" and q.get("op") == "&":
                return "w" if not self.const_ptr(q) else "r"
            if k == "obj":
                if q.get("op") in ("[]", "->", "*") or q.get("meth") in ("begin", "end", "find", "front", "back", "at",
                                                                       "get", "lower_bound", "rbegin", "rend", "data"):
                    return "r"
                return "r" if q.get("const") else "w"
            if "pmodes" in q and type(k) is int and k < len(q["pmodes"]):
                return "w" if q["pmodes"][k] in ("r", "p") and q["pmodes"][k] == "r" else "r"
            if q["k"] in ("ConditionalOperator", "ArraySubscriptExpr"):
                i = q["i"]
                continue
            return "r"

    def const_ptr(self, q):
        return q.get("t", "").startswith("const ")

    def guarded_type(self, t):
        """objects with a life of their own: their accesses are seen in their own methods"""
        t = t.replace("const ", "").replace("&", "").replace("*", "").strip()
        return t in CLASSES or "mutex" in t or "condition_variable" in t or t in (
            "wsrep::server_service", "wsrep::client_service", "wsrep::provider")

    # ------------------------------------------------------------ interprocedural
    def visit(self, f, entry, pl, role):
        """entry: mutexes held by callers, pl: ((param index, mutex), ...)"""
        key = (f.key, entry, pl, role)
        if key in self.ctxs:
            return
        self.ctxs[key] = True
        fk = (f.key, pl)
        if fk not in self.flow:
            ph = {f.params[i]["d"]: m for i, m in pl}
            self.flow[fk] = self.dataflow(f, ph)
            ex = self.flow[fk][2]
            if ex is not None and not set(ph) <= set(ex) and f.exit is not None:
                self.problem("exit", f, {"l": f.line}, "a lock given by the caller is not owned when the function returns")
        at, lv, _ = self.flow[fk]
        if f.raw.get("isdtor") or f.name.split("::")[-1] == (f.cls or "").split("::")[-1]:
            if f.cls in CLASSES:
                return
        for n in f.nodes.values():
            p = at.get(n["i"])
            if p is None:
                continue
            held = entry | {lv[d] for d in p}
            if n["k"] == "MemberExpr" and n.get("field") and n.get("owner") in CLASSES and not self.guarded_type(n.get("t", "")):
                self.access.append(((n["owner"], n["name"]), self.kind_of(f, n), held, role, f, n))
            if n["k"] == "DeclStmt":
                for v in n.get("vars", ()):
                    if v["d"] in lv and self.is_lock(v.get("t", "")) and lv[v["d"]] in entry:
                        self.problem("recursive", f, n, "mutex of %s locked while a caller holds it" % self.short(lv[v["d"]]))
                    if v["d"] in lv and self.is_lock(v.get("t", "")):
                        for h in held - {lv[v["d"]]}:
                            self.order.setdefault((h, lv[v["d"]]), set()).add(self.where(f, n))
            if "obj" in n and n.get("meth") == "lock" and UL in n.get("cls", ""):
                d = self.lockvar(f, n["obj"])
                if d in lv:
                    for h in held - {lv[d]}:
                        self.order.setdefault((h, lv[d]), set()).add(self.where(f, n))
            if "callee" in n and n["k"] != "DeclRefExpr":
                g = self.P.fns.get(n["callee"])
                tg = [g] if g is not None else []
                tg += [self.P.fns[o] for o in self.P.overrides.get(n["callee"], ()) if o in self.P.fns]
                for g in tg:
                    if g.name.split("::")[-1].startswith(LOGGING):
                        continue
                    self.enter(f, n, g, p, lv, entry, role)

    def enter(self, f, n, g, p, lv, entry, role):
        pl = []
        given = set()
        for i, a in enumerate(n.get("c", ())):
            if i < len(g.params) and self.is_lock(g.params[i].get("t", "")):
                d = self.lockvar(f, a)
                if d is None or d not in lv:
                    raise AnalysisBroken("cannot tell the lock passed at %s" % self.where(f, n))
                if d not in p:
                    self.problem("unowned", f, n, "%s called with a lock that is not owned on every path" % g.short())
                pl.append((i, lv[d]))
                given.add(d)
        rest = frozenset(entry | {lv[d] for d in p if d not in given})
        r = role
        # a session's own functions called for another session (from the server) run in a foreign thread
        if g.cls == CLI and f.cls == SRV:
            r = "other"
        self.visit(g, rest, tuple(pl), r)

    def roots(self):
        out = []
        for f in self.P.fns.values():
            if f.cls in (CLI, SRV) and f.raw.get("pub") and not f.raw.get("isdtor"):
                sh = f.name.split("::")[-1]
                if sh == f.cls.split("::")[-1]:
                    continue
                pl = tuple((i, f.cls) for i, p in enumerate(f.params) if self.is_lock(p.get("t", "")))
                role = "other" if f.cls == SRV or sh in OTHERS else "init" if sh in INIT else \
                    "xid" if sh in BY_XID else "owner"
                out.append((f, pl, role))
        return out

    def run(self):
        self.order = {}
        rs = self.roots()
        for f, pl, role in rs:
            self.visit(f, frozenset(), pl, role)
        self.ctx.count("contexts", len(self.ctxs))
        self.ctx.count("accesses", len(self.access))
        return rs


    # ------------------------------------------------------------ rules
    def protected(self, sites, minimum):
        """is a field guarded by the mutex? most of the places that matter hold it"""
        ok = sum(1 for x in sites.values() if x)
        return ok >= minimum and 2 * ok >= len(sites)

    def pause_result(self):
        """fields set to the result of provider.pause(): the pausing thread owns them"""
        out = set()
        for f in self.P.fns.values():
            for n in f.nodes.values():
                if n.get("cname") == PAUSE and n["k"] != "DeclRefExpr":
                    par = self.parents(f)
                    i = n["i"]
                    while i in par:
                        q = par[i][0]
                        if q.get("op") == "=" and "obj" in q:
                            m = self.member(f, q["obj"])
                            if m:
                                out.add(m[:2])
                        i = q["i"]
        return out

    def check(self):
        for kind, where, msg in sorted(self.bad):
            self.ctx.violation({"recursive": "deadlock", "unowned": "lock balance", "exit": "lock balance"}[kind], where, msg)
        # order of mutexes
        for (a, b), ws in sorted(self.order.items()):
            self.ctx.inst("lock order", "%s before %s" % (self.short(a), self.short(b)))
            if (b, a) in self.order:
                for w in sorted(ws if a == SRV else ()):
                    self.ctx.violation("deadlock", w, "mutex of %s locked while holding that of %s, elsewhere it is the "
                                       "other way round (%s)" % (self.short(b), self.short(a),
                                                                 sorted(self.order[(b, a)])[0]))
        self.blocking_calls()
        own = self.pause_result()
        fields = {}
        for fld, k, held, role, f, n in self.access:
            fields.setdefault(fld, []).append((k, held, role, f, n))
        for fld, acc in sorted(fields.items()):
            if fld in own:
                continue
            if fld[0] == SRV:
                self.server_field(fld, acc)
            else:
                self.session_field(fld, acc)

    def accessor(self, f):
        return f.raw.get("pub") and len([n for n in f.nodes.values() if n["k"] == "ReturnStmt"]) == 1 and \
            len(f.blocks) <= 3 and not any("callee" in n and not n.get("ctor") for n in f.nodes.values())

    def server_field(self, fld, acc):
        sites, wr = {}, 0
        bad = {}
        for k, held, role, f, n in acc:
            if k == "r" and self.accessor(f):
                continue
            s = (f.key, n["i"])
            good = SRV in held
            sites[s] = sites.get(s, True) and good
            if k == "w" and good:
                wr += 1
            if not good:
                bad[s] = (k, f, n)
        if not wr or not self.protected(sites, 1):
            return
        self.ctx.inst("guarded field", "%s::%s by the server mutex (%d accesses)" % (fld[0][7:], fld[1], len(sites)))
        for k, f, n in bad.values():
            self.ctx.violation("data race", self.where(f, n), "%s::%s is %s without the server mutex" % (
                fld[0][7:], fld[1], "written" if k == "w" else "read"))

    def scalar(self, t):
        return t == "bool" or t.replace("enum ", "") in self.P.enums

    def session_field(self, fld, acc):
        sites, bad = {}, {}
        shared = False
        # fragments are only touched by the thread which the state (certifying, executing) lets do so
        if any("streaming_context" in n.get("t", "") for k, held, role, f, n in acc):
            return
        for k, held, role, f, n in acc:
            if role == "init" or f.name.split("::")[-1].startswith(LOGGING):
                continue
            if role == "other":
                if k == "w" or self.scalar(n.get("t", "")):
                    shared = True
                if k == "r" and self.accessor(f):
                    continue
            elif k == "r":
                continue
            s = (f.key, n["i"])
            good = CLI in held
            sites[s] = sites.get(s, True) and good
            if not good:
                bad[s] = (k, f, n, role)
        if not shared or not self.protected(sites, 1):
            return
        self.ctx.inst("guarded field", "%s::%s by the session mutex (%d accesses)" % (fld[0][7:], fld[1], len(sites)))
        for k, f, n, role in bad.values():
            self.ctx.violation("data race", self.where(f, n), "%s::%s is %s%s without the session mutex" % (
                fld[0][7:], fld[1], "written" if k == "w" else "read", " by another thread" if role == "other" else ""))

    def blocking_calls(self):
        seen = set()
        for fk, entry, pl, role in sorted(self.ctxs, key=str):
            f = self.P.fns[fk]
            at, lv, _ = self.flow[(fk, pl)]
            for n in f.nodes.values():
                c = n.get("cname", "")
                cls, _, meth = c.rpartition("::")
                if n["k"] == "DeclRefExpr" or cls not in BLOCKING or meth not in BLOCKING[cls] or n["i"] not in at:
                    continue
                held = entry | {lv[d] for d in at[n["i"]]}
                if role == "xid":
                    held = held - {CLI}
                if (fk, n["i"]) not in seen:
                    seen.add((fk, n["i"]))
                    self.ctx.inst("blocking call", "%s at %s" % (c[7:], self.where(f, n)))
                for h in sorted(held):
                    self.ctx.violation("deadlock", self.where(f, n), "%s called while the mutex of %s is held" % (
                        c.replace("wsrep::", ""), self.short(h)))


def run(ctx):
    L = Locking(ctx.program(), ctx)
    L.run()
    L.check()
    ctx.functions |= {k[0] for k in L.ctxs}
