"""What an applier, a replayer or a recovered transaction works on: exactly the transaction it was given (C33)."""
from interp import Monitor, Ev, U, INF, EMPTYFS
from iso import IsoSession, PRV, SRV, CSN
from ir import AnalysisBroken
from passing import Asked, Rep, Result

TRX = "wsrep::transaction"
T = ("C", "transaction_")
CERT = PRV + "certify"
FIND = SRV + "find_streaming_applier"


class Sends(Monitor):
    """what only the local session of a streaming transaction may do"""
    kinds = ("call",)
    watch = ()
    FNS = (PRV + "rollback", PRV + "certify", SRV + "convert_streaming_client_to_applier",
           SRV + "start_streaming_client", SRV + "stop_streaming_client")

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.name in self.FNS:
            st.mon["#sends"] = ev.name.replace("wsrep::", "")


def accessor(P, cls, name):
    """the observer of that name"""
    fs = [f for f in P.by_name.get(cls + "::" + name, ()) if not f.params]
    ro = [f for f in fs if f.key.endswith("const")]
    if len(ro or fs) != 1:
        raise AnalysisBroken("anchor vanished: %s::%s() const" % (cls, name))
    return (ro or fs)[0]


class Ses(IsoSession):
    def __init__(self, P, hp):
        IsoSession.__init__(self, P, hp=hp)
        self.I.keep = None
        self.I.add_monitor(Asked())
        self.I.add_monitor(Sends())
        M = self.I.models
        M[PRV + "start_transaction"] = self.m_any
        M[CERT] = self.m_any
        M[FIND] = self.m_find
        M["wsrep::high_priority_service::transaction"] = self.m_trx

    def m_any(self, I, st, c):
        out = []
        names = {v: k.split("::")[-1] for k, v in self.PST.items()}
        for v in sorted(set(self.PST.values())):
            x = st.copy()
            x.log("%s:%d provider.%s() -> %s" % (c.fn.short(), c.node["l"], c.cname.split("::")[-1], names[v]))
            x.mon["#got"] = v
            x.mon["#args"] = tuple(c.args)
            if c.cname == CERT:
                x.mon["#cert"] = tuple(self.snapshot(x, a) for a in c.args)
            I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args), v, c.node, I))
            out.append((x, v))
        return out

    def snapshot(self, st, a):
        """value, or the leaves of an object"""
        I = self.I
        if type(a) is tuple and a[0] in ("l", "p"):
            return ("obj", tuple(sorted(((p, I.norm(st, v)) for p, v in st.sub(a[1])), key=repr)))
        vs = I.values(st, a)
        return ("val", tuple(sorted(vs)) if vs else None)

    def m_find(self, I, st, c):
        out = []
        for found in (1, 0):
            x = st.copy()
            x.log("%s:%d find_streaming_applier() -> %s" % (c.fn.short(), c.node["l"], "found" if found else "none"))
            x.mon["#find"] = (found, tuple(c.args))
            out.append((x, ("p", ("SA",)) if found else 0))
        return out

    def m_trx(self, I, st, c):
        o = c.obj
        if o is not None and o != ("p", ("SA",)) and o != ("l", ("SA",)) and o != ("SA",):
            st.log("transaction of another applier")
            return [(st, ("l", ("OTHER",)))]
        return [(st, ("l", ("SRC",)))]

    # ---------------------------------------------------------------- values
    def get(self, st, name, this):
        """accessor of transaction: value or location"""
        x = st.copy()
        r = self.I.run(accessor(self.P, TRX, name), x, ("p", this), [])
        if len(r) != 1:
            raise AnalysisBroken("transaction::%s(): %d outcomes" % (name, len(r)))
        k, x, v = r[0]
        self.seen = x
        return v

    def vals(self, st, name, this, t):
        """leaf values of what the accessor shows"""
        I = self.I
        v = self.get(st, name, this)
        st = self.seen
        if type(v) is tuple and v[0] in ("l", "p"):
            return tuple((p, I.norm(st, I.read(st, v[1] + p, tt))) for p, tt in I.leaves(t))
        return (((), I.norm(st, v)),)

    def PST_success(self):
        return [v for k, v in self.PST.items() if k.split("::")[-1] == "success"][0]


RULE = "transaction content"
WHAT = {"id": ("id", "wsrep::transaction_id"), "server id": ("server_id", "wsrep::id"),
        "handle": ("ws_handle", "wsrep::ws_handle"), "meta data": ("ws_meta", "wsrep::ws_meta"),
        "XID": ("xid", "wsrep::xid"), "streaming context": ("streaming_context", "wsrep::streaming_context")}


class Check:
    def __init__(self, ctx, W):
        self.W, self.I = W, W.I
        self.R = Rep(ctx, W, ctx.prop)
        self.n = 0

    def obj(self, st, loc, t):
        I = self.I
        return tuple((p, I.norm(st, I.read(st, loc + p, tt))) for p, tt in I.leaves(t))

    def equal(self, st, what, want, where, text=None):
        acc, t = WHAT[what]
        have = dict(self.W.vals(st, acc, T, t))
        want = dict(want)
        for p in sorted(want, key=repr):
            a, b = have.get(p), want[p]
            self.R.note("compared", "%s: %s%s" % (where.split("::")[-1], what, "." + ".".join(map(str, p)) if p else ""))
            if b == U or a == U or a is None:
                self.R.note("unknown", "%s: %s.%s" % (where.split("::")[-1], what, p))
                if a == U and b == U:
                    continue
            if a != b and not (type(a) is int and self.I.must(st, b, a)) and not \
                    (type(b) is int and self.I.must(st, a, b)):
                self.R.report(RULE, st, "%s: the %s of the transaction is not that of the %s" % (
                    where.split("::")[-1], what, text or "write set it was given"), where)
                return False
        return True

    def val(self, st, acc, want, where, msg):
        v = self.I.norm(st, self.W.get(st, acc, T))
        vs = {v} if type(v) is int else self.I.values(st, v)
        self.R.note("compared", "%s: %s" % (where.split("::")[-1], acc))
        if vs != {want}:
            self.R.report(RULE, st, "%s: %s" % (where.split("::")[-1], msg), where)

    # ---------------------------------------------------------------- named inputs
    def named(self, st, root, t):
        """an object nothing is known about"""
        for p, tt in self.I.leaves(t):
            st.put((root,) + p, self.I.sym(st, (root, p), ("I", INF, INF, EMPTYFS)))
        return (root,)

    def src(self, st, state=None, streaming=True):
        """a source transaction of which only the state is known"""
        loc = self.named(st, "SRC", TRX)
        v = self.I.norm(st, self.W.get(st, "state", loc))
        c = [p for p, t in self.I.leaves(TRX) if self.I.norm(st, st.get(loc + p)) == v]
        if len(c) != 1:
            raise AnalysisBroken("field behind transaction::state(): %s" % c)
        if state is not None:
            st.put(loc + c[0], self.W.ST[state])
        if streaming:
            v = self.W.get(st, "is_streaming", loc)
            if not self.I.assume(st, v, True):
                raise AnalysisBroken("a streaming source transaction is impossible")
        return loc

    def of(self, st, loc, t, acc):
        """leaf values of what an accessor of another class shows"""
        f = accessor(self.P, t, acc)
        r = self.I.run(f, st.copy(), ("p", loc), [])
        if len(r) != 1:
            raise AnalysisBroken("%s::%s(): %d outcomes" % (t, acc, len(r)))
        v = r[0][2]
        if type(v) is tuple and v[0] in ("l", "p"):
            return tuple((p, self.I.norm(r[0][1], y)) for p, y in r[0][1].sub(v[1]))
        return (((), self.I.norm(st, v)),)

    def snap(self, st, names):
        return {n: self.W.vals(st, WHAT[n][0], T, WHAT[n][1]) for n in names}

    def from_src(self, st, names):
        return {n: self.W.vals(st, WHAT[n][0], ("SRC",), WHAT[n][1]) for n in names}

    def all(self, st, want, where, text):
        for n in sorted(want):
            self.equal(st, n, want[n], where, text)

    def call(self, st, name, args, n=None):
        self.n += 1
        out = self.W.api(st, CSN + name, args, n)
        if not out:
            raise AnalysisBroken("%s has no outcome" % name)
        return out


def appliers(c, W, P):
    """a high priority session given a write set, a fragment, or a transaction"""
    I = W.I
    c.P = P
    META, HND = "wsrep::ws_meta", "wsrep::ws_handle"
    for s0 in W.start():
        # ---- a write set
        st = s0.copy()
        h, m = c.named(st, "WSH", HND), c.named(st, "WSM", META)
        want = {"handle": c.obj(st, h, HND), "meta data": c.obj(st, m, META),
                "id": c.of(st, m, META, "transaction_id"), "server id": c.of(st, m, META, "server_id")}
        where = CSN + "start_transaction"
        for r, s in c.call(st, "start_transaction", (("l", h), ("l", m)), 2):
            if r:
                c.R.report(RULE, s, "start_transaction: fails for a write set", where)
                continue
            c.all(s, want, where, "write set it was given")
            c.val(s, "flags", F_START, where, "a transaction started for a write set has other flags than start")
            c.val(s, "certified", 1, where, "a delivered write set is not taken as certified")
            c.val(s, "state", W.ST["s_executing"], where, "the transaction is not executing")
            # ---- its next fragment
            x = s.copy()
            m2 = c.named(x, "WSM2", META)
            want2 = dict(want, **{"meta data": c.obj(x, m2, META)})
            for r2, y in c.call(x, "next_fragment", (("l", m2),)):
                if r2:
                    c.R.report(RULE, y, "next_fragment: fails", CSN + "next_fragment")
                c.all(y, want2, CSN + "next_fragment", "fragment it was given")
            # ---- ordering information
            for commit in (0, 1):
                x = s.copy()
                h2, m2 = c.named(x, "WSH2", HND), c.named(x, "WSM2", META)
                want2 = dict(want, **{"handle": c.obj(x, h2, HND), "meta data": c.obj(x, m2, META)})
                for r2, y in c.call(x, "prepare_for_ordering", (("l", h2), ("l", m2), commit)):
                    w2 = CSN + "prepare_for_ordering"
                    if r2:
                        c.R.report(RULE, y, "prepare_for_ordering: fails", w2)
                    c.all(y, want2, w2, "write set it was given")
                    c.val(y, "certified", commit, w2, "certified exactly for commit")
            # ---- the error of applying it
            x = s.copy()
            e = c.named(x, "ERR", "wsrep::mutable_buffer")
            err = c.obj(x, e, "wsrep::mutable_buffer")
            for r2, y in c.call(x, "adopt_apply_error", (("l", e),)):
                w2 = CSN + "adopt_apply_error"
                have = W.vals(y, "apply_error", T, "wsrep::mutable_buffer")
                c.R.note("compared", "adopt_apply_error: apply error")
                if have != err:
                    c.R.report(RULE, y, "adopt_apply_error: the error of applying is not kept", w2)
            # ---- between two fragments
            x = s.copy()
            sq = c.named(x, "FSEQ", "wsrep::seqno")
            frag = []
            for r2, y in c.call(x, "fragment_applied", (("l", sq),)):
                if not I.must(y, W.get(y, "is_streaming", T), 1):
                    c.R.report(RULE, y, "fragment_applied: the applier does not know that its transaction streams",
                               CSN + "fragment_applied")
                else:
                    frag.append(y)
            for y in frag:
                w2 = CSN + "after_applying"
                keep = c.snap(y, ("id", "server id", "handle"))
                for r3, z in c.call(y.copy(), "after_applying", ()):
                    c.all(z, keep, w2, "fragment applied")
                    c.R.note("compared", "after_applying: order")
                    if not I.must(z, W.get(z, "ordered", T), 0):
                        c.R.report(RULE, z, "after_applying: a streaming applier keeps the order of its last fragment",
                                   w2)
                    c.val(z, "state", W.ST["s_executing"], w2, "the transaction is not executing any more")
                bf = [f for f in P.by_name.get(CSN + "bf_abort", ()) if len(f.params) == 1]
                if len(bf) != 1:
                    raise AnalysisBroken("anchor vanished: client_state::bf_abort(seqno)")
                for r3, z in c.call(y.copy(), "bf_abort", (("l", ("FSEQ",)),), 1):
                    c.R.note("outcome", "bf_abort %s" % r3)
                    what = z.mon.get("#sends")
                    if what:
                        c.R.report(RULE, z, "bf_abort: the rollback of a streaming applier calls %s()" % what,
                                   CSN + "bf_abort")
        # ---- a streaming transaction
        st = s0.copy()
        src = c.src(st, "s_executing")
        want = c.from_src(st, ("id", "server id", "streaming context"))
        flags = I.norm(st, W.get(st, "flags", src))
        where = CSN + "adopt_transaction"
        for r, s in c.call(st, "adopt_transaction", (("l", src),)):
            c.all(s, want, where, "transaction it was given")
            c.R.note("compared", "adopt_transaction: flags")
            if I.norm(s, W.get(s, "flags", T)) != flags:
                c.R.report(RULE, s, "adopt_transaction: the flags of the transaction are not those of the transaction "
                           "it was given", where)
            c.val(s, "state", W.ST["s_executing"], where, "the transaction is not executing")
        # ---- a transaction to replay
        st = s0.copy()
        src = c.src(st, "s_replaying", streaming=False)
        names = ("id", "server id", "handle", "meta data", "XID", "streaming context")
        want = c.from_src(st, names)
        where = CSN + "clone_transaction_for_replay"
        for r, s in c.call(st, "clone_transaction_for_replay", (("l", src),)):
            c.all(s, want, where, "transaction it was given")
            c.val(s, "state", W.ST["s_replaying"], where, "the transaction is not replaying")
            # ---- the replayed write set
            x = s.copy()
            h, m = c.named(x, "WSH", HND), c.named(x, "WSM", META)
            want2 = dict(want, **{"meta data": c.obj(x, m, META)})
            w2 = CSN + "start_transaction"
            for r2, y in c.call(x, "start_transaction", (("l", h), ("l", m)), 2):
                if r2:
                    c.R.report(RULE, y, "start_transaction: fails for a replayed write set", w2)
                c.all(y, want2, w2, "transaction replayed")
                c.val(y, "certified", 1, w2, "a replayed write set is not taken as certified")
                c.val(y, "state", W.ST["s_replaying"], w2, "the transaction is not replaying any more")
                z = y.copy()
                h2, m2 = c.named(z, "WSH2", HND), c.named(z, "WSM2", META)
                w3 = CSN + "prepare_for_ordering"
                for r3, q in c.call(z, "prepare_for_ordering", (("l", h2), ("l", m2), 1)):
                    c.all(q, want2, w3, "transaction replayed")
                    c.val(q, "certified", 1, w3, "a replayed write set is not certified any more")
        # ---- a recovered XA transaction
        st = s0.copy()
        tid = I.sym(st, ("TID",), ("I", INF, INF, EMPTYFS))
        for r, s in c.call(st, "start_transaction", (("l", c.named(st, "TID", "wsrep::transaction_id")),), 1):
            if r:
                c.R.report(RULE, s, "start_transaction: an applier cannot start a transaction", CSN + "start_transaction")
                continue
            where = CSN + "restore_xid"
            x = c.named(s, "XID", "wsrep::xid")
            want = dict(c.snap(s, ("id", "server id", "handle")), XID=c.obj(s, x, "wsrep::xid"))
            v = W.get(s, "is_empty", T)
            I.assume(s, v, True)
            for r2, y in c.call(s, "restore_xid", (("l", x),)):
                if r2:
                    c.R.report(RULE, y, "restore_xid: fails", where)
                c.all(y, want, where, "transaction recovered")
                c.val(y, "flags", 0, where, "the start of a recovered transaction would be replicated again")
                c.val(y, "state", W.ST["s_prepared"], where, "the transaction is not prepared")


def by_xid(c, W, P):
    """a session terminating a recovered XA transaction"""
    I = W.I
    c.P = P
    ok = W.PST_success()
    for s0 in W.start():
        for nm, flag, final in (("commit_by_xid", F_COMMIT, "s_committed"), ("rollback_by_xid", F_ROLLBACK, "s_aborted")):
            where = CSN + nm
            st = s0.copy()
            c.src(st, "s_prepared")
            x = c.named(st, "XID", "wsrep::xid")
            for r, s in c.call(st, "start_transaction", (("l", c.named(st, "TID", "wsrep::transaction_id")),), 1):
                w2 = CSN + "start_transaction"
                c.all(s, {"id": c.obj(s, ("TID",), "wsrep::transaction_id")}, w2, "one it was given")
                h = dict(W.vals(s, "ws_handle", T, "wsrep::ws_handle"))
                c.R.note("compared", "start_transaction: local handle")
                if not {v for p, v in c.obj(s, ("TID",), "wsrep::transaction_id")} <= set(h.values()):
                    c.R.report(RULE, s, "start_transaction: the write set handle is not for the transaction", w2)
                c.val(s, "flags", F_START, w2, "a new transaction has other flags than start")
                c.val(s, "certified", 0, w2, "a new transaction is certified")
                if r:
                    continue
                state0 = I.norm(s, W.get(s, "state", T))
                s.mon.pop("#got", None)
                s.mon.pop("#asked", None)
                for r2, y in c.call(s, nm, (("l", x),)):
                    found, args = y.mon.get("#find", (None, ()))
                    if found is None:
                        c.R.report(RULE, y, "%s: the applier of the XA transaction is not looked up" % nm, where)
                        continue
                    if not args or not (type(args[0]) is tuple and args[0][1] == x):
                        c.R.report(RULE, y, "%s: looks up another XID than the one given" % nm, where)
                    asked = [a for a in y.mon.get("#asked", ()) if a[0] == "certify"]
                    c.R.note("outcome", "%s found %d certify %s" % (nm, found, y.mon.get("#got")))
                    err = W.obs(y, "current_error")[0]
                    if not found:
                        if asked:
                            c.R.report(RULE, y, "%s: certifies without knowing the transaction" % nm, where)
                        if not r2 or not I.values(y, err) or 0 in I.values(y, err):
                            c.R.report(RULE, y, "%s: succeeds although the transaction is unknown" % nm, where)
                        continue
                    if len(asked) != 1:
                        c.R.report(RULE, y, "%s: certifies %d write sets" % (nm, len(asked)), where)
                        continue
                    cert = y.mon["#cert"]
                    c.R.note("compared", "%s: flags" % nm)
                    if cert[2] != ("val", (flag | F_PA,)):
                        c.R.report(RULE, y, "%s: the write set has other flags than %s and no parallel applying" % (
                            nm, "commit" if flag == F_COMMIT else "rollback"), where)
                    meta = cert[3]
                    src = c.from_src(y, ("id", "server id"))
                    vals = {v for p, v in meta[1]} if meta[0] == "obj" else set()
                    for n in src:
                        c.R.note("compared", "%s: %s" % (nm, n))
                        if not all(v in vals for p, v in src[n]):
                            c.R.report(RULE, y, "%s: the write set does not carry the %s of the XA transaction" % (nm, n),
                                       where)
                    good = y.mon["#got"] == ok
                    if (r2 == 0) != good:
                        c.R.report(RULE, y, "%s: result disagrees with the provider" % nm, where)
                    if good:
                        c.val(y, "state", W.ST[final], where, "the transaction does not end as asked")
                    else:
                        if I.norm(y, W.get(y, "state", T)) != state0:
                            c.R.report(RULE, y, "%s: the transaction ends although the provider failed" % nm, where)
                        if I.values(y, err) != {W.ERR["e_error_during_commit"]}:
                            c.R.report(RULE, y, "%s: the provider failed without the commit error" % nm, where)


F_START, F_COMMIT, F_ROLLBACK, F_PA = 1, 2, 4, 16


def run(ctx):
    P = ctx.program()
    for hp, f in ((True, appliers), (False, by_xid)):
        W = Ses(P, hp)
        c = Check(ctx, W)
        f(c, W, P)
        R = Result()
        R.violations = W.I.violations
        R.functions = set(W.I.cov["functions"])
        R.tops = [None] * c.n
        R.steps = W.I.steps
        R.events = W.I.cov["events"]
        R.notes = W.I.notes
        ctx.take(R)


def leftover(ctx):
    """C34 for sessions which apply: the same rule, along the ends of an applied or replayed transaction"""
    import trx
    P = ctx.program()
    W = Ses(P, True)
    c = Check(ctx, W)
    c.P = P
    I = W.I
    L = trx.Leftover(P)
    ends = {"commit": ("before_commit", "ordered_commit", "after_commit"), "rollback": ("before_rollback", "after_rollback")}
    for s0 in W.start():
        for kind in ("write set", "streaming", "replay"):
            st = s0.copy()
            h, m = c.named(st, "WSH", "wsrep::ws_handle"), c.named(st, "WSM", "wsrep::ws_meta")
            if kind == "write set":
                cur = [s for r, s in c.call(st, "start_transaction", (("l", h), ("l", m)), 2) if not r]
            elif kind == "streaming":
                c.src(st, "s_executing")
                cur = [s for r, s in c.call(st, "adopt_transaction", (("l", ("SRC",)),))]
            else:
                c.src(st, "s_replaying", streaming=False)
                cur = [y for r, s in c.call(st, "clone_transaction_for_replay", (("l", ("SRC",)),))
                       for r2, y in c.call(s, "start_transaction", (("l", h), ("l", m)), 2) if not r2]
            for end, seq in sorted(ends.items()):
                if kind == "replay" and end == "rollback":
                    continue
                last = 0
                for s in [x.copy() for x in cur]:
                    # anything may have been set while applying
                    c.named(s, "ERR", "wsrep::mutable_buffer")
                    todo = [y for r, y in c.call(s, "adopt_apply_error", (("l", ("ERR",)),))]
                    todo = [y for x in todo for r, y in c.call(x, "prepare_for_ordering",
                                                              (("l", h), ("l", m), int(end == "commit")))]
                    for p, t, f in L.leaf:
                        if p[0] in ("flags_", "implicit_deps_"):
                            for x in todo:
                                x.put(T + p, I.sym(x, ("dirty", p), ("I", 0, INF, EMPTYFS)))
                    for nm in seq:
                        todo = [y for x in todo for r, y in
                                c.call(x, nm, (0,) if nm == "before_commit" else ()) if not r]
                    for x in todo:
                        for r, y in c.call(x, "after_applying", ()):
                            last += 1
                            where = CSN + "after_applying"
                            if I.must(y, W.get(y, "active", T), 1):
                                c.R.report("nothing left over", y, "after_applying: the transaction is not over after %s"
                                           % end, where)
                                continue
                            for p, t, f in L.leaf:
                                v = y.get(T + p)
                                w = L.default(I, p, f)
                                v = I.norm(y, v) if v is not None else None
                                ok = v is not None and (I.must(y, v, w) if type(w) is int else
                                                        v == w or v == "EMPTY" or w == U)
                                c.R.note("leaf", ".".join(p))
                                c.R.note("end", "%s %s" % (kind, end))
                                if not ok:
                                    c.R.report("nothing left over", y, "%s of the transaction (%s) left over when it is "
                                               "over" % (L.NAME.get(p[0], "data"), ".".join(p)), where)
                if not last:
                    ctx.broken.append("an applied transaction (%s) cannot end with %s" % (kind, end))
    R = Result()
    R.violations = W.I.violations
    R.functions = set(W.I.cov["functions"])
    R.tops = [None] * c.n
    R.steps = W.I.steps
    R.events = W.I.cov["events"]
    R.notes = W.I.notes
    ctx.take(R)
