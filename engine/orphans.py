"""Containers of streaming transactions: a server machine whose maps of streaming appliers and clients have
known elements while views are handled, and calls on the registries themselves."""
from machine import *

CLN = "wsrep::client_state::"
END = "end"


class Maps:
    """std::map fields with named elements; mixed into a world."""

    def maps(self):
        self.mapf = {}
        for f in self.P.records["wsrep::server_state"]["fields"]:
            if f["t"].startswith("std::map<"):
                if "high_priority_service *" in f["t"]:
                    self.mapf["applier"] = f["name"]
                elif "client_state *" in f["t"]:
                    self.mapf["client"] = f["name"]
        if len(self.mapf) != 2:
            raise AnalysisBroken("anchor vanished: maps of streaming transactions (%s)" % self.mapf)
        self.kind = {v: k for k, v in self.mapf.items()}
        self.I.std_hook = self.hook

    def elements(self, st, kind):
        c = st.get(("S", self.mapf[kind]))
        return c[1][1] if type(c) is tuple and c[0] == "k" and type(c[1]) is tuple and c[1][0] == "map" else None

    def set_elements(self, st, kind, toks):
        st.put(("S", self.mapf[kind]), ("k", ("map", tuple(toks))))

    def eloc(self, kind, tok):
        return ("me:%s:%s" % (kind, tok),)

    def it(self, kind, tok):
        return ("k", ("it", kind, tok))

    def give(self, fn, st, n, v):
        tmp = (("m", fn.sk, n["i"]),)
        st.clear(tmp)
        st.put(tmp, v)
        return ("l", tmp)

    def iter_of(self, st, a):
        v = self.I.cell(st, a) if a is not None else None
        if type(v) is tuple and v[0] == "k" and type(v[1]) is tuple and v[1][0] == "it":
            return v[1][1:]
        return None

    def misuse(self, st, what):
        self.mon.misuse(self.I, st, what)

    def key_match(self, st, kind, tok, loc):
        """do the keys at loc and of the element agree? 1, 0 or None"""
        I = self.I
        e = self.eloc(kind, tok) + ("first",)
        if kind == "applier":
            pr = [(e + ("first",), loc + ("first",)), (e + ("second",), loc + ("second",))]
        else:
            pr = [(e, loc)]
        res = 1
        for a, b in pr:
            x, y = I.cell(st, ("l", a)), I.norm(st, I.cell(st, ("l", b)))
            if x != y:
                if x == U or y == U:
                    return None
                res = 0
        return res

    def nxt(self, st, kind, tok):
        els = self.elements(st, kind)
        if tok == END:
            self.misuse(st, "iterator advanced past the end")
            return END
        if tok not in els:
            self.misuse(st, "iterator of an erased element advanced")
            return END
        k = els.index(tok) + 1
        return els[k] if k < len(els) else END

    def hook(self, fn, st, n, obj, args):
        I = self.I
        meth, op = n.get("meth", ""), n.get("op")
        base = n.get("cname", "").split("::")[-1]
        if obj is None or n.get("cls", "") == "":
            if op in ("==", "!=") and len(args) == 2:
                a, b = self.iter_of(st, args[0]), self.iter_of(st, args[1])
                if a and b:
                    r = int(a == b)
                    return r if op == "==" else 1 - r
            if base in ("find_if", "find_if_not") and len(args) == 3:
                a, b = self.iter_of(st, args[0]), self.iter_of(st, args[1])
                if a and b:
                    return self.find_if(fn, st, n, a, b, args[2], base == "find_if")
            if base in ("next", "distance", "advance", "for_each", "any_of", "all_of") and args and \
                    self.iter_of(st, args[0]):
                if base == "next":
                    k, t = self.iter_of(st, args[0])
                    return self.give(fn, st, n, self.it(k, self.nxt(st, k, t)))
                raise AnalysisBroken("std::%s over streaming transactions is not modelled" % base)
            return None
        loc = I.objloc(st, n, obj)
        it = self.iter_of(st, ("l", loc))
        if it:
            kind, tok = it
            if op in ("->", "*"):
                if tok == END:
                    self.misuse(st, "end iterator dereferenced")
                elif tok not in self.elements(st, kind):
                    self.misuse(st, "element used after it was erased")
                return ("p" if op == "->" else "l", self.eloc(kind, tok))
            if op == "++":
                v = self.it(kind, self.nxt(st, kind, tok))
                if args:
                    r = self.give(fn, st, n, self.it(kind, tok))
                    st.put(loc, v)
                    return r
                st.put(loc, v)
                return obj if type(obj) is tuple and obj[0] == "l" else ("l", loc)
            if op in ("==", "!=") and args:
                b = self.iter_of(st, args[0])
                if b:
                    r = int(it == b)
                    return r if op == "==" else 1 - r
            return None
        if len(loc) != 2 or loc[0] != "S" or loc[1] not in self.kind:
            return None
        kind = self.kind[loc[1]]
        els = self.elements(st, kind)
        if els is None:
            return None
        if not I.held(st, ("Sm",)):
            self.misuse(st, "the %s map is used without holding the server mutex" % kind)
        if meth in ("begin", "cbegin"):
            return self.give(fn, st, n, self.it(kind, els[0] if els else END))
        if meth in ("end", "cend"):
            return self.give(fn, st, n, self.it(kind, END))
        if meth in ("empty", "size"):
            return int(not els) if meth == "empty" else len(els)
        if meth in ("find", "count", "at") or op == "[]":
            k = args[0][1] if type(args[0]) is tuple and args[0][0] == "l" else None
            hit = None
            for t in els:
                m = self.key_match(st, kind, t, k) if k is not None else None
                if m is None:
                    raise AnalysisBroken("key looked up in the %s map is unknown" % kind)
                if m:
                    hit = t
            if meth == "find":
                return self.give(fn, st, n, self.it(kind, hit or END))
            if meth == "count":
                return int(hit is not None)
            if hit is None:
                raise AnalysisBroken("%s map: access to an absent element" % kind)
            return ("l", self.eloc(kind, hit) + ("second",))
        if meth == "erase" and args:
            x = self.iter_of(st, args[0])
            if x is None:
                k = args[0][1] if type(args[0]) is tuple and args[0][0] == "l" else None
                tok = END
                for t in els:
                    if k is not None and self.key_match(st, kind, t, k):
                        tok = t
            else:
                tok = x[1]
                if tok == END or tok not in els:
                    self.misuse(st, "erase with an invalid iterator")
                    return self.give(fn, st, n, self.it(kind, END))
            if tok == END:
                return 0
            nx = self.nxt(st, kind, tok)
            self.set_elements(st, kind, [t for t in els if t != tok])
            I.emit(st, Ev("cont", "erase", loc, (kind, tok), None, n, I))
            return self.give(fn, st, n, self.it(kind, nx)) if x is not None else 1
        if meth == "clear":
            for t in els:
                I.emit(st, Ev("cont", "erase", loc, (kind, t), None, n, I))
            self.set_elements(st, kind, ())
            return U
        if meth in ("insert", "emplace") and args:
            new = "N"
            e = self.eloc(kind, new)
            st.clear(e)
            if meth == "insert":
                src = args[0][1]
                parts = [src + ("first",), src + ("second",)]
            else:
                parts = [a[1] if type(a) is tuple and a[0] == "l" else a for a in args[:2]]
            for nm, a in zip(("first", "second"), parts):
                if type(a) is tuple and len(a) and st.sub(a):
                    for p, v in st.sub(a):
                        st.put(e + (nm,) + p, I.norm(st, v))
                else:
                    st.put(e + (nm,), a)
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            dup = [t for t in els if self.key_match(st, kind, t, e + ("first",))]
            if new in els and not dup:
                raise AnalysisBroken("%s map: more than one element inserted" % kind)
            if not dup:
                self.set_elements(st, kind, tuple(els) + (new,))
                I.emit(st, Ev("cont", "insert", loc, (kind, new), None, n, I))
            st.put(tmp + ("first",), self.it(kind, dup[0] if dup else new))
            st.put(tmp + ("second",), int(not dup))
            return ("l", tmp)
        raise AnalysisBroken("%s map: %s is not modelled" % (kind, meth or "operator" + str(op)))

    def find_if(self, fn, st, n, a, b, pred, want):
        kind = a[0]
        els = list(self.elements(st, kind))
        i = els.index(a[1]) if a[1] in els else len(els)
        j = els.index(b[1]) if b[1] in els else len(els)
        out = []
        work = [(st, i)]
        while work:
            s, k = work.pop()
            if k >= j:
                out.append((s, self.it(kind, b[1])))
                continue
            for x, v in self.test(fn, s, n, pred, self.eloc(kind, els[k])):
                d = self.I.decide(x, v)
                for truth in (True, False):
                    if d is not None and d != truth:
                        continue
                    y = x.copy()
                    if d is None and not self.I.assume(y, v, truth):
                        continue
                    if truth == want:
                        out.append((y, self.it(kind, els[k])))
                    else:
                        work.append((y, k + 1))
        return [(s, self.give(fn, s, n, v)) for s, v in out]

    def test(self, fn, st, n, pred, eloc):
        """call of a predicate object on an element"""
        P = self.P
        t = n.get("at") or ""
        cand = [f for f in P.fns.values() if f.name.endswith("::operator()") and len(f.params) == 1 and
                f.cls and f.cls in self.pred_types(fn, n)]
        if len(cand) != 1:
            raise AnalysisBroken("cannot tell the predicate of %s at line %s" % (n.get("cname"), n["l"]))
        loc = pred[1] if type(pred) is tuple and pred[0] in ("l", "p") else None
        f = cand[0]
        this = ("p", loc)
        if "(lambda" in f.cls and loc is not None:
            this = st.get(loc + ("#this",))
        return [(x, v) for k, x, v in self.I.run(f, st, this, [("l", eloc)], n["l"]) if k == "ret"]

    def pred_types(self, fn, n):
        out = set()
        work = [n["c"][-1]]
        while work:
            x = fn.nodes.get(work.pop())
            if x is None:
                continue
            out.add(x.get("t", "").replace("const ", "").rstrip("& "))
            if x["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                          "ExprWithCleanups", "CXXConstructExpr"):
                work += x.get("c", ())
        return out


class Orphans(Maps, Machine):
    """on_view() in every reachable server state, with every combination of streaming transactions"""

    def __init__(self, P):
        Machine.__init__(self, P)
        self.maps()
        self.TST = P.enum("wsrep::transaction::state")
        r = P.records["wsrep::transaction"]["fields"]

        def one(t):
            c = [f["name"] for f in r if f["t"].replace("enum ", "") == t]
            if len(c) > 1:
                # the one the accessor returns
                x = St()
                for k, nm in enumerate(c):
                    x.put(("T", nm), 100 + k)
                f = P.fn("wsrep::transaction::" + t.split("::")[-1], 0)
                v = [y[2] for y in self.I.run(f, x, ("p", ("T",)), []) if y[0] == "ret"]
                c = [c[v[0] - 100]] if len(v) == 1 and type(v[0]) is int else []
            if len(c) != 1:
                raise AnalysisBroken("anchor vanished: %s field of transaction (%s)" % (t, c))
            return c[0]
        self.tf = {k: one(t) for k, t in (("state", "wsrep::transaction::state"), ("id", "wsrep::transaction_id"),
                                          ("sid", "wsrep::id"), ("xid", "wsrep::xid"))}
        c = [f["name"] for f in P.records["wsrep::client_state"]["fields"] if f["t"] == "wsrep::transaction"]
        i = [f["name"] for f in P.records["wsrep::client_state"]["fields"] if f["t"] == "wsrep::client_id"]
        if len(c) != 1 or len(i) != 1:
            raise AnalysisBroken("anchor vanished: transaction of a client_state")
        self.ctrx, self.cid = c[0], i[0]
        M = self.I.models
        M[HPSV + "transaction"] = self.m_transaction
        M[HPSV + "adopt_transaction"] = self.m_adopt
        M[CLN + "total_order_bf_abort"] = self.m_abort
        M[SSV + "streaming_applier_service"] = lambda I, st, c: self.m_new(I, st, c)
        self.I.no_inline |= {g.key for g in P.by_name.get(CLN + "total_order_bf_abort", ())}
        self.full = False

    # ------------------------------------------------------------ contracts
    def m_transaction(self, I, st, c):
        o = I.objloc(st, c.node, c.obj)
        I.emit(st, Ev("call", c.cname, o, (), None, c.node, I))
        return [(st, ("l", o + ("#trx",)))]

    def m_adopt(self, I, st, c):
        out = []
        o = I.objloc(st, c.node, c.obj)
        for r in (0, 1):
            x = st.copy()
            x.log("%s:%d adopt_transaction() -> %d" % (c.fn.short(), c.node["l"], r))
            I.emit(x, Ev("call", c.cname, o, tuple(c.args), r, c.node, I))
            out.append((x, r))
        return out

    def m_new(self, I, st, c):
        st.log("%s:%d streaming_applier_service()" % (c.fn.short(), c.node["l"]))
        I.emit(st, Ev("call", c.cname, ("SS",), tuple(c.args), ("p", ("HN",)), c.node, I))
        return [(st, ("p", ("HN",)))]

    def m_abort(self, I, st, c):
        """the client is handed over or stopped at once, or later while the view handler waits"""
        o = I.objloc(st, c.node, c.obj)
        I.emit(st, Ev("call", c.cname, o, tuple(c.args), None, c.node, I))
        st.log("%s:%d total_order_bf_abort()" % (c.fn.short(), c.node["l"]))
        tok = [t for t in self.elements(st, "client") or () if ("C" + t,) == o]
        out = []
        for now in ((1, 0) if tok else (1,)):
            x = st.copy()
            if tok and now:
                self.set_elements(x, "client", [t for t in self.elements(x, "client") if t != tok[0]])
            elif tok:
                x.mon["#going"] = tuple(sorted(set(x.mon.get("#going", ())) | {tok[0]}))
            out.append((x, U))
        return out

    def waiting(self, I, st, m):
        going = st.mon.get("#going", ())
        if going and not st.mon.get("#int"):
            x = st.copy()
            self.set_elements(x, "client", [t for t in self.elements(x, "client") if t not in going])
            x.mon.pop("#going")
            x.log("-- the client's transaction is handed over or stopped --")
            return [x]
        return Machine.waiting(self, I, st, m)

    def on_acquire(self, I, st, m):
        return [st] if self.full else Machine.on_acquire(self, I, st, m)

    # ------------------------------------------------------------ contents
    def fill(self, st, apps, clients):
        """apps, clients: prepared flag of each element"""
        I = self.I
        for kind, flags, names in (("applier", apps, "AB"), ("client", clients, "CD")):
            toks = []
            for t, prep in zip(names, flags):
                e = self.eloc(kind, t)
                if kind == "applier":
                    st.put(e + ("first", "first"), ("k", "sid" + t))
                    st.put(e + ("first", "second"), ("k", "tid" + t))
                    st.put(e + ("second",), ("p", ("H" + t,)))
                    tr = ("H" + t, "#trx")
                else:
                    st.put(e + ("first",), ("k", "cid" + t))
                    st.put(e + ("second",), ("p", ("C" + t,)))
                    st.put(("C" + t, self.cid), ("k", "cid" + t))
                    tr = ("C" + t, self.ctrx)
                st.put(tr + (self.tf["state"],), self.TST["s_prepared" if prep else "s_executing"])
                st.put(tr + (self.tf["sid"],), ("k", "sid" + t))
                st.put(tr + (self.tf["id"],), ("k", "tid" + t))
                toks.append(t)
            self.set_elements(st, kind, toks)

    COMBOS = [((), ())] + [(a, ()) for a in ((0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1))] + \
             [((), c) for c in ((0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1))] + [((0,), (0,)), ((0,), (1,))]

    # the exploration has two passes: server states first, then every view delivered in one of them
    collect = None
    probing = False

    def step(self, out, st, name, args=(), nparams=None, then=None, dead=False):
        if self.collect is None:
            Machine.step(self, out, st, name, args, nparams, then, dead)
        elif name == "on_view":
            key = (st.get(VIEW + ("status_",)), st.mon["sbi"], st.mon["ini"],
                   self.I.norm(st, st.get(VIEW + ("own_index_",))) == -1) + tuple(
                       sorted((p, v) for p, v in st.store["S"].d.items() if type(v) is int and len(p) == 1))
            if key not in self.collect:
                x = st.copy()
                x.mon["#args"] = args
                self.collect[key] = x

    def deliveries(self, tops):
        self.collect = {}
        for t in tops:
            self.succ(t.copy())
        r, self.collect = list(self.collect.values()), None
        self.probing = True
        return r

    def succ(self, st):
        if self.probing:
            self.probe(st, st.mon.pop("#args"))
            return []
        return Machine.succ(self, st)

    def canon(self, st):
        return st if self.probing else Machine.canon(self, st)

    def probe(self, st, args):
        vst = st.get(VIEW + ("status_",))
        self.full = True
        self.mon.on_ = True
        owns = (None,) if vst != self.VST["primary"] else (None, -1)
        try:
            for own in owns:
                for apps, clients in self.COMBOS if own != -1 else self.COMBOS[1:3] + self.COMBOS[7:]:
                    if own is None and vst != self.VST["primary"] and len(clients) > 1:
                        continue
                    x = st.copy()
                    if own is not None:
                        x.put(VIEW + ("own_index_",), own)
                    self.fill(x, apps, clients)
                    x.log("streaming appliers %s, streaming clients %s" % tuple(
                        ", ".join("prepared" if f else "open" for f in fl) or "none" for fl in (apps, clients)))
                    x.mon["#op"] = "on_view"
                    x.mon["#vst"] = vst
                    x.mon["#own"] = own
                    x.mon["#apps"], x.mon["#clients"] = apps, clients
                    x.mon["#vs"] = self.vseq(x, VIEW)
                    x.mon["#cur"] = "H"
                    b = x.copy()
                    r = self.api(x, "on_view", args)
                    for k, v, s in r:
                        self.mon.finish(self, s, k)
                    if not r:
                        self.mon.finish(self, b, None)
        finally:
            self.full = False
            self.mon.on_ = False
