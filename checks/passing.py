"""Requests of the DBMS which the library hands on to the provider: what is asked, and what is answered."""
from interp import Monitor, Ev, U, INF, EMPTYFS
from iso import IsoSession, PRV, SRV, CSN, META, N_UNDEF
from srvsess import ServerSession
from ir import AnalysisBroken
from world import Interp

GID = "wsrep::gtid"


class Asked(Monitor):
    """what the provider was asked during one call"""
    kinds = ("call",)
    watch = ()

    def on(self, I, st, ev):
        if ev.kind == "call" and ev.name.startswith(PRV):
            a = st.mon.get("#asked", ())
            if len(a) < 2:
                st.mon["#asked"] = a + ((ev.name[len(PRV):], I.where()),)


def gtid_leaves(I):
    return [p for p, t in I.leaves(GID)]


def same(I, st, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    return a == b and a != U


class Base:
    def models(self):
        I = self.I
        self.given = {}
        for f in ("causal_read", "wait_for_gtid", "enc_set_key", "append_key", "append_data", "assign_read_view",
                  "start_transaction"):
            I.models[PRV + f] = self.m_status
        I.add_monitor(Asked())

    def m_status(self, I, st, c):
        """every status the provider may answer with"""
        out = []
        sh = c.cname.split("::")[-1]
        vals = (0, 1) if c.node.get("t") == "int" else sorted(set(self.PST.values()))
        names = {v: k.split("::")[-1] for k, v in self.PST.items()}
        for v in vals:
            x = st.copy()
            r = v
            if sh == "causal_read":
                tmp = (("m", c.fn.sk, c.node["i"]),)
                x.clear(tmp)
                for p in gtid_leaves(I):
                    s = I.sym(x, ("causal", p), ("I", 1, INF, EMPTYFS))
                    x.put(tmp + ("first",) + p, s)
                x.put(tmp + ("second",), v)
                r = ("l", tmp)
            x.log("%s:%d provider.%s() -> %s" % (c.fn.short(), c.node["l"], sh, v if vals == (0, 1) else names[v]))
            x.mon["#got"] = v
            x.mon["#args"] = tuple(c.args)
            if sh == "append_key" and v:
                x.mon["#bad"] = 1
            I.emit(x, Ev("call", c.cname, ("P",), tuple(c.args), v, c.node, I))
            out.append((x, r))
        return out

    def loc(self, a):
        return a[1] if type(a) is tuple and a[0] in ("l", "p") else None


class Srv(Base, ServerSession):
    def __init__(self, P):
        ServerSession.__init__(self, P)
        self.models()

    def extra_policy(self):
        return {("S", f["name"]): "keep" for f in self.P.records["wsrep::server_state"]["fields"]
                if f["t"].startswith("std::vector<unsigned char")}


class Ses(Base, IsoSession):
    def __init__(self, P):
        IsoSession.__init__(self, P)
        for m in ("sync_wait_gtid_", "last_written_gtid_"):
            for p in gtid_leaves(self.I):
                self.policy[("C", m) + p] = "keep"
        self.I.keep = {k for k, v in self.policy.items() if v != "drop"}
        self.I.no_inline -= {g.key for f in ("causal_read", "wait_for_gtid") for g in self.P.by_name[SRV + f]}
        self.I.models["wsrep::gtid::undefined"] = self.m_undefined
        self.models()

    def m_undefined(self, I, st, c):
        """the constant is a default constructed object"""
        if st.get(("UND",) + META[1:]) is None:
            r = I.run(self.P.fn("wsrep::gtid::gtid", 0), st, ("p", ("UND",)), [])
            if len(r) != 1:
                raise AnalysisBroken("wsrep::gtid(): %d outcomes" % len(r))
            st = r[0][1]
        return [(st, ("l", ("UND",)))]

    def gtid(self, st, name):
        loc = self.obs(st, name)[1]
        if loc is None:
            # accessor returning the gtid itself by reference
            raise AnalysisBroken("anchor vanished: %s()" % name)
        return tuple(self.I.norm(st, self.I.read(st, loc + p, "long")) for p in gtid_leaves(self.I))


def timeout(I, st):
    """some timeout"""
    return I.sym(st, ("timeout",), ("I", INF, INF, EMPTYFS))


def once(ctx, rule, st, api, what, where):
    asked = [a for a in st.mon.get("#asked", ()) if a[0] == what]
    other = [a for a in st.mon.get("#asked", ()) if a[0] != what]
    if other:
        ctx.report(rule, st, "%s asks the provider for %s" % (api, other[0][0]), where)
    if len(asked) != 1:
        ctx.report(rule, st, "%s asks the provider for %s %d times" % (api, what, len(asked)), where)
        return False
    ctx.note("provider call", "%s: %s" % (api, asked[0][1]))
    return True


class Rep:
    """violations and instances of one world"""
    def __init__(self, ctx, W, prop):
        self.ctx, self.W, self.prop = ctx, W, prop

    def report(self, rule, st, msg, where):
        self.W.I.report(self.prop, rule, st, msg, where=where)

    def note(self, k, v):
        self.W.I.notes.setdefault(k, set()).add(v)


RULE = "request handed on"
WAIT = "causal read"
KEY = "encryption key"
LAST = "last written"


def server(ctx, P):
    W = Srv(P)
    R = Rep(ctx, W, ctx.prop)
    I = W.I
    ok = [v for k, v in W.PST.items() if k.split("::")[-1] == "success"][0]
    n = 0
    # ---- waiting for a position
    for api, what, args in (("wait_for_gtid", "wait_for_gtid", (("l", ("G",)),)), ("causal_read", "causal_read", ())):
        st = W.construct()
        tm = timeout(I, st)
        for ret, val, s in W.api(st, api, args + (tm,), nparams=len(args) + 1):
            n += 1
            where = SRV + api
            if ret != "ret":
                R.report(WAIT, s, "%s throws" % api, where)
                continue
            if not once(R, WAIT, s, api, what, where):
                continue
            a = s.mon["#args"]
            if a[-1] != tm:
                R.report(WAIT, s, "%s does not wait with the timeout it was given" % api, where)
            if api == "wait_for_gtid":
                if W.loc(a[0]) != ("G",):
                    R.report(WAIT, s, "wait_for_gtid waits for another position", where)
                if not I.must(s, val, s.mon["#got"]):
                    R.report(WAIT, s, "wait_for_gtid result disagrees with the provider", where)
            else:
                l = W.loc(val)
                if l is None:
                    raise AnalysisBroken("result of causal_read is not an object")
                if not I.must(s, I.read(s, l + ("second",), "int"), s.mon["#got"]):
                    R.report(WAIT, s, "causal_read result disagrees with the provider", where)
                for p in gtid_leaves(I):
                    v = I.norm(s, I.read(s, l + ("first",) + p, "long"))
                    if v != I.sym(s.copy(), ("causal", p), ("I", 1, INF, EMPTYFS)):
                        R.report(WAIT, s, "causal_read returns another position than the provider", where)
                        break
            R.note("outcome", "%s %s" % (api, s.mon["#got"]))
    # ---- encryption key
    up = [f["name"] for f in P.records["wsrep::server_state"]["fields"] if f["t"].startswith("std::unique_ptr")]
    for loaded in (0, 1):
        st = W.construct()
        st.put(("K",), I.sym(st, ("key",), ("I", INF, INF, EMPTYFS)))
        if not loaded:
            for f in up:
                st.put(("S", f), 0)
        where = SRV + "set_encryption_key"
        for ret, val, s in W.api(st, "set_encryption_key", (("l", ("K",)),), nparams=1):
            n += 1
            asked = [a for a in s.mon.get("#asked", ()) if a[0] == "enc_set_key"]
            R.note("outcome", "set_encryption_key %s %s" % (loaded, s.mon.get("#got")))
            if ret != "ret":
                R.report(KEY, s, "set_encryption_key throws", where)
            elif not loaded:
                if asked:
                    R.report(KEY, s, "set_encryption_key uses a provider that is not loaded", where)
                if not I.must(s, val, 0):
                    R.report(KEY, s, "set_encryption_key fails although there is no provider yet", where)
            elif len(asked) != 1:
                R.report(KEY, s, "set_encryption_key hands the key to the provider %d times" % len(asked), where)
            elif I.must(s, val, 0) != (s.mon["#got"] == ok) or \
                    not (I.must(s, val, 0) or I.must(s, I.cmp(s, "!=", val, 0), 1)):
                R.report(KEY, s, "set_encryption_key result disagrees with the provider", where)
            # the key is kept for the provider that will be loaded
            enc = [f["name"] for f in P.records["wsrep::server_state"]["fields"]
                   if f["t"].startswith("std::vector<unsigned char")]
            for f in enc:
                if s.get(("S", f)) is None or s.get(("S", f)) != s.get(("K",)):
                    R.report(KEY, s, "set_encryption_key does not keep the key for a provider loaded later", where)
    return W, n


def forgotten(W, R, s, what):
    """the position of a sync wait ends with the command, however the command ends"""
    I = W.I
    cur = [s]
    for nm in ("after_statement", "after_command_before_result", "after_command_after_result"):
        cur = [z for y in cur for rr, z in W.api(y, CSN + nm)]
    R.note("command", what)
    if not cur:
        raise AnalysisBroken("the command cannot be ended after sync_wait")
    for y in cur:
        if not I.must(y, I.norm(y, I.read(y, W.obs(y, "sync_wait_gtid")[1] + META[1:], "long")), N_UNDEF):
            R.report(WAIT, y, "the sync wait position of a command is still there for the next one",
                     CSN + "after_command_after_result")


def waited(W, R, s, what):
    """sync_wait in this state, then the end of the command"""
    y = s.copy()
    for k in ("#asked", "#args", "#got"):
        y.mon.pop(k, None)
    n = 0
    for r, x in W.api(y, CSN + "sync_wait", (timeout(W.I, y),), 1):
        if r == 0:
            n += 1
            forgotten(W, R, x, what)
    return n


def session(ctx, P):
    W = Ses(P)
    R = Rep(ctx, W, ctx.prop)
    I = W.I
    ok = [v for k, v in W.PST.items() if k.split("::")[-1] == "success"][0]
    noimp = [v for k, v in W.PST.items() if k.endswith("not_implemented")][0]
    n = 0
    starts = W.start()
    for st in W.start(1):
        n += waited(W, R, st, "keeping its error")
    for st in starts:
        before = W.gtid(st, "sync_wait_gtid")
        x = st.copy()
        where = CSN + "sync_wait"
        tm = timeout(I, x)
        for r, s in W.api(x, CSN + "sync_wait", (tm,), 1):
            n += 1
            if not once(R, WAIT, s, "sync_wait", "causal_read", where):
                continue
            got = s.mon["#got"]
            R.note("outcome", "sync_wait %s" % got)
            if s.mon["#args"][-1] != tm:
                R.report(WAIT, s, "sync_wait does not wait with the timeout it was given", where)
            now = W.gtid(s, "sync_wait_gtid")
            err = W.obs(s, "current_error")[0]
            want = tuple(I.sym(s.copy(), ("causal", p), ("I", 1, INF, EMPTYFS)) for p in gtid_leaves(I))
            if got == ok:
                if r not in (0,):
                    R.report(WAIT, s, "sync_wait fails although the causal read succeeded", where)
                if now != want:
                    R.report(WAIT, s, "sync_wait does not record the position it waited for", where)
                if not I.must(s, err, 0):
                    R.report(WAIT, s, "sync_wait reports a client error although the causal read succeeded", where)
                forgotten(W, R, s, "without a transaction")
            else:
                if r == 0:
                    R.report(WAIT, s, "sync_wait succeeds although the causal read failed", where)
                if now != before:
                    R.report(WAIT, s, "sync_wait records a position although the causal read failed", where)
                e = I.values(s, err)
                if e != {W.ERR["e_not_supported_error" if got == noimp else "e_timeout_error"]}:
                    R.report(WAIT, s, "sync_wait reports the wrong client error", where)
        # ---- data for the transaction
        for r0, s0 in W.api(st.copy(), CSN + "start_transaction", (), 1):
            if s0.mon.get("#asked") and any(a[0] == "start_transaction" for a in s0.mon["#asked"]):
                once(R, RULE, s0, "start_transaction", "start_transaction", CSN + "start_transaction")
                R.note("outcome", "start_transaction %s" % s0.mon["#got"])
                if (r0 == 0) != (s0.mon["#got"] == ok):
                    R.report(RULE, s0, "start_transaction result disagrees with the provider", CSN + "start_transaction")
            else:
                R.report(RULE, s0, "start_transaction does not tell the provider", CSN + "start_transaction")
            if r0:
                continue
            n += waited(W, R, s0, "with a transaction")
            for api, what, arg in (("append_key", "append_key", ("l", ("KEY",))),
                                   ("append_data", "append_data", ("l", ("BUF",))),
                                   ("assign_read_view", "assign_read_view", ("p", ("RV",))),
                                   ("assign_read_view", "assign_read_view", 0)):
                y = s0.copy()
                for k in ("#asked", "#args", "#got"):
                    y.mon.pop(k, None)
                where = CSN + api
                for r, s in W.api(y, where, (arg,), 1):
                    n += 1
                    if not once(R, RULE, s, api, what, where):
                        continue
                    R.note("outcome", "%s %s" % (api, s.mon["#got"]))
                    a = s.mon["#args"]
                    if (a[-1] != arg) and not (type(a[-1]) is tuple and type(arg) is tuple and
                                               a[-1][1] == arg[1]):
                        R.report(RULE, s, "%s hands on something else than it was given" % api, where)
                    good = s.mon["#got"] == (0 if what == "append_key" else ok)
                    if (r == 0) != good:
                        R.report(RULE, s, "%s result disagrees with the provider" % api, where)
            y = s0.copy()
            for k in ("#asked", "#args", "#got"):
                y.mon.pop(k, None)
            where = CSN + "append_keys"
            most = 0
            for r, s in W.api(y, where, (("l", ("KEYS",)),), 1):
                n += 1
                asked = [a for a in s.mon.get("#asked", ()) if a[0] == "append_key"]
                most = max(most, len(asked))
                R.note("outcome", "append_keys %d %s" % (min(len(asked), 1), s.mon.get("#got")))
                if asked and (r == 0) != (not s.mon.get("#bad")):
                    R.report(RULE, s, "append_keys result disagrees with the provider", where)
                if not asked and r != 0:
                    R.report(RULE, s, "append_keys fails without having appended anything", where)
            if not most:
                R.report(RULE, s0, "append_keys never hands a key to the provider", where)
    return W, n


class Result:
    pass


def run(ctx):
    P = ctx.program()
    for f in (server, session):
        W, n = f(ctx, P)
        R = Result()
        R.violations = W.I.violations
        R.functions = set(W.I.cov["functions"])
        R.tops = [None] * n
        R.steps = W.I.steps
        R.events = W.I.cov["events"]
        R.notes = W.I.notes
        ctx.take(R)
