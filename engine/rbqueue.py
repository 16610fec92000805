"""The queue of rollback events of a server: known contents, every outcome of sending one."""
from machine import *


class RbQueue(Machine):
    SEQ = ("std::deque<", "std::list<", "std::vector<")

    def __init__(self, P):
        Machine.__init__(self, P)
        c = [f["name"] for f in P.records["wsrep::server_state"]["fields"]
             if f["t"].startswith(self.SEQ) and "wsrep::transaction_id" in f["t"]]
        if len(c) != 1:
            raise AnalysisBroken("anchor vanished: queue of rollback events (%s)" % c)
        self.qf = c[0]
        self.I.std_hook = self.hook
        self.I.models[PRV + "rollback"] = self.m_rollback

    def content(self, st):
        c = st.get(("S", self.qf))
        return c[1][1] if type(c) is tuple and c[0] == "k" and type(c[1]) is tuple and c[1][0] == "seq" else None

    def fill(self, st, ids):
        st.put(("S", self.qf), ("k", ("seq", tuple(ids))))
        for i in ids:
            st.put(self.eloc(i), ("k", i))

    def eloc(self, i):
        return ("rb:" + i,)

    def m_rollback(self, I, st, c):
        a = I.cell(st, c.args[0])
        out = []
        if len(st.mon.get("#sent", ())) > 5:
            I.report(self.prop, "rollback event queue", st, "sending the queued events does not end")
            return []
        for r in (0, self.PST["error_connection_failed"]):
            x = st.copy()
            x.log("%s:%d provider::rollback(%s) -> %s" % (c.fn.short(), c.node["l"], a, r))
            x.mon["#sent"] = x.mon.get("#sent", ()) + ((a, r),)
            if not I.held(x, ("Sm",)):
                x.mon["#nolock"] = 1
            out.append((x, r))
        return out

    def on_acquire(self, I, st, m):
        return [st]

    def give(self, fn, st, n, v):
        tmp = (("m", fn.sk, n["i"]),)
        st.clear(tmp)
        st.put(tmp, v)
        return ("l", tmp)

    def iter_of(self, st, a):
        v = self.I.cell(st, a) if a is not None else None
        return v[1][1] if type(v) is tuple and v[0] == "k" and type(v[1]) is tuple and v[1][0] == "qit" else None

    def bad(self, st, what):
        st.mon["#bad"] = what

    def hook(self, fn, st, n, obj, args):
        I = self.I
        meth, op = n.get("meth", ""), n.get("op")
        if obj is None:
            if op in ("==", "!=") and len(args) == 2:
                a, b = self.iter_of(st, args[0]), self.iter_of(st, args[1])
                if a and b:
                    return int((a == b) == (op == "=="))
            return None
        loc = I.objloc(st, n, obj)
        it = self.iter_of(st, ("l", loc))
        if it:
            els = self.content(st)
            if op in ("->", "*"):
                if it not in els:
                    self.bad(st, "an event is used after it was removed")
                return ("p" if op == "->" else "l", self.eloc(it))
            if op == "++":
                k = els.index(it) + 1 if it in els else len(els)
                if it not in els:
                    self.bad(st, "an event is used after it was removed")
                v = ("k", ("qit", els[k] if k < len(els) else "end"))
                if args:
                    r = self.give(fn, st, n, st.get(loc))
                    st.put(loc, v)
                    return r
                st.put(loc, v)
                return ("l", loc)
            if op in ("==", "!=") and args:
                b = self.iter_of(st, args[0])
                if b:
                    return int((it == b) == (op == "=="))
            return None
        if loc != ("S", self.qf):
            return None
        els = self.content(st)
        if els is None:
            return None
        if not I.held(st, ("Sm",)):
            self.bad(st, "the queue is used without holding the server mutex")
        if meth in ("empty", "size"):
            return int(not els) if meth == "empty" else len(els)
        if meth in ("begin", "cbegin", "end", "cend"):
            v = els[0] if els and "begin" in meth else "end"
            return self.give(fn, st, n, ("k", ("qit", v)))
        if meth in ("front", "back"):
            if not els:
                self.bad(st, "%s() of the empty queue" % meth)
                return None
            return ("l", self.eloc(els[0 if meth == "front" else -1]))
        if meth in ("pop_front", "pop_back"):
            if not els:
                self.bad(st, "%s() of the empty queue" % meth)
                return U
            st.put(("S", self.qf), ("k", ("seq", els[1:] if meth == "pop_front" else els[:-1])))
            return U
        if meth == "clear":
            st.put(("S", self.qf), ("k", ("seq", ())))
            return U
        if meth == "erase" and len(args) == 1:
            x = self.iter_of(st, args[0])
            if x not in els:
                self.bad(st, "erase with an invalid iterator")
                return self.give(fn, st, n, ("k", ("qit", "end")))
            k = els.index(x) + 1
            st.put(("S", self.qf), ("k", ("seq", tuple(e for e in els if e != x))))
            return self.give(fn, st, n, ("k", ("qit", els[k] if k < len(els) else "end")))
        if meth in ("push_back", "emplace_back", "push_front", "emplace_front"):
            v = I.norm(st, I.cell(st, args[0]))
            i = v[1] if type(v) is tuple and v[0] == "k" and type(v[1]) is str else "?"
            st.put(self.eloc(i), v)
            st.put(("S", self.qf), ("k", ("seq", els + (i,) if "back" in meth else (i,) + els)))
            return U
        raise AnalysisBroken("queue of rollback events: %s is not modelled" % (meth or "operator" + str(op)))


def check(ctx):
    P = ctx.program()
    W = RbQueue(P)
    W.prop = ctx.prop
    I = W.I
    prop = ctx.prop

    def rep(st, msg, name):
        I.report(prop, "rollback event queue", st, msg, where=SRV + name)

    def base(state, ids):
        st = W.construct()
        st.mon = {"sbi": 0, "ini": 1, "w": None}
        W.seed(st)
        st.put(("S", W.statef), state)
        W.fill(st, ids)
        st.log("queued rollback events: %s" % (", ".join(ids) or "none"))
        return st

    def outcome(s, ids, name, ret=None):
        """what was sent, and what is left"""
        m = s.mon
        ctx.inst("sent", "%s: %s" % (name, " ".join("%s=%s" % (a[1], r) for a, r in m.get("#sent", ()))))
        if m.get("#bad"):
            rep(s, m["#bad"], name)
        if m.get("#nolock"):
            rep(s, "rollback event is sent without holding the server mutex", name)
        left = list(ids)
        fail = None
        for a, r in m.get("#sent", ()):
            if fail is not None:
                rep(s, "an event is sent although an earlier one failed", name)
                break
            if not left or a != ("k", left[0]):
                rep(s, "events are not sent in the order they were queued", name)
                break
            if r:
                fail = r
            else:
                left.pop(0)
        else:
            if fail is None and left:
                rep(s, "queued events are not sent", name)
            elif tuple(left) != W.content(s):
                rep(s, "the queue does not hold exactly the events that were not sent", name)
            elif ret is not None and not I.must(s, ret, fail or 0):
                rep(s, "the result does not tell whether all events were sent", name)
        if I.held(s, ("Sm",)):
            rep(s, "the server mutex is still held", name)

    SETS = ((), ("r1",), ("r1", "r2"), ("r1", "r2", "r3"))
    ENTRY = ("send_pending_rollback_events", "on_sync", "queue_rollback_event")
    for state in (W.s("s_synced"), W.s("s_joined"), W.s("s_donor")):
        for ids in SETS:
            r = W.api(base(state, ids), ENTRY[0], nparams=0)
            if not r:
                rep(base(state, ids), "sending the queued events does not complete", ENTRY[0])
            for k, v, s in r:
                if k == "ret":
                    outcome(s, ids, ENTRY[0], v)
            if state != W.s("s_donor"):
                for k, v, s in W.api(base(state, ids), ENTRY[1], nparams=0):
                    if k == "ret":
                        outcome(s, ids, ENTRY[1])
            st = base(state, ids)
            st.put(("NEW",), ("k", "new"))
            for k, v, s in W.api(st, ENTRY[2], (("l", ("NEW",)),), nparams=1):
                if W.content(s) != ids + ("new",):
                    rep(s, "the event is not queued behind the others", ENTRY[2])
                if s.mon.get("#bad"):
                    rep(s, s.mon["#bad"], ENTRY[2])
                if s.mon.get("#sent"):
                    rep(s, "an event is sent while it is queued", ENTRY[2])
                ctx.inst("queued", "%s -> %s" % (ids, W.content(s)))
    for v in I.violations.values():
        ctx.violation(v.rule, v.where, v.msg, v.stack, v.trace, **v.extra)
    ctx.functions |= set(I.cov["functions"])
    ctx.count("block_steps", I.steps)
