"""Lost wake-ups: every condition wait re-tests its predicate in a loop, and every write that may make the
predicate of some wait true is followed by a notification of that condition variable."""
from ir import AnalysisBroken

WAITC = "wsrep::condition_variable::wait"
NOTIFY = ("wsrep::condition_variable::notify_all", "wsrep::condition_variable::notify_one")
# fields only the waiting thread itself writes (session mode), or that change only after the deregistration
# that ends the wait (transaction id)
OWN = ("wsrep::client_state::mode", "wsrep::transaction_id")
MUTATE = {"erase", "clear", "pop_back", "pop_front", "pop", "extract", "swap", "reset", "resize", "assign", "remove",
          "remove_if", "operator="}
GROW = {"insert", "push_back", "emplace", "push_front", "emplace_back", "try_emplace", "emplace_front"}
CASTS = {"ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
         "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXConstCastExpr", "CXXBindTemporaryExpr"}


class Wakeups:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.prop = ctx.prop
        self.callers = {}
        for f in P.fns.values():
            for n in f.nodes.values():
                c = n.get("callee")
                if c and n["k"] != "DeclRefExpr":
                    self.callers.setdefault(c, []).append((f, n))
                    for o in P.overrides.get(c, ()):
                        self.callers.setdefault(o, []).append((f, n))
        self.pos = {}      # fn key -> {node id: (block, index)}
        self.must = {}

    # ------------------------------------------------------------ syntax
    def where(self, f, n):
        return "%s:%s (%s)" % (f.file, n.get("l", f.line), f.name)

    def strip(self, f, i):
        n = f.nodes.get(i)
        while n is not None and n["k"] in CASTS and len(n.get("c", ())) == 1:
            n = f.nodes.get(n["c"][0])
        return n

    def member(self, f, i, depth=0):
        """(owner, field, type) an expression denotes or is part of"""
        n = self.strip(f, i)
        if n is None or depth > 6:
            return None
        if n["k"] == "MemberExpr" and n.get("field"):
            return n.get("owner"), n["name"], n.get("t", "")
        if n["k"] == "ArraySubscriptExpr":
            return self.member(f, n["c"][0], depth + 1)
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("[]", "*", "->") and "obj" in n:
            return self.member(f, n["obj"], depth + 1)
        if n["k"] == "CXXMemberCallExpr" and n.get("meth") in ("at", "front", "back") and "obj" in n:
            return self.member(f, n["obj"], depth + 1)
        if n["k"] == "UnaryOperator" and n.get("op") in ("&", "*"):
            return self.member(f, n["c"][0], depth + 1)
        if "callee" in n and n["k"] != "DeclRefExpr":
            g = self.P.fns.get(n["callee"])
            if g is not None:
                r = [x for x in g.nodes.values() if x["k"] == "ReturnStmt" and x.get("c")]
                if len(r) == 1:
                    return self.member(g, r[0]["c"][0], depth + 1)
        return None

    def positions(self, f):
        p = self.pos.get(f.key)
        if p is None:
            p = self.pos[f.key] = {}
            for b in f.blocks.values():
                for k, e in enumerate(b["e"]):
                    if "s" in e and e["s"] not in p:
                        p[e["s"]] = (b["id"], k)
        return p

    # ------------------------------------------------------------ loops
    def cycle(self, f, bid):
        """blocks on a cycle through bid"""
        fwd, work = set(), [s for s in f.blocks[bid]["s"] if s is not None]
        while work:
            x = work.pop()
            if x not in fwd:
                fwd.add(x)
                work += [s for s in f.blocks[x]["s"] if s is not None]
        if bid not in fwd:
            return set()
        pred = {}
        for b in f.blocks.values():
            for s in b["s"]:
                if s is not None:
                    pred.setdefault(s, []).append(b["id"])
        bwd, work = set(), [bid]
        while work:
            x = work.pop()
            if x not in bwd:
                bwd.add(x)
                work += pred.get(x, [])
        return fwd & bwd

    def conditions(self, f, scc):
        out = []
        for b in scc:
            blk = f.blocks[b]
            t = blk.get("t")
            ss = [s for s in blk["s"] if s is not None]
            if t is None or len(ss) < 2 or all(s in scc for s in ss) and t.get("k") not in ("BinaryOperator",):
                continue
            c = t.get("lc") or t.get("c")
            if c is not None:
                out.append(c)
        return out

    def reads(self, f, i, form, seen, locs):
        """fields an expression reads: {(owner, name): (form, type)}; form T: true blocks, F: false blocks, A: any"""
        out = {}
        n = f.nodes.get(i)
        if n is None or (f.key, i) in seen:
            return out
        seen.add((f.key, i))

        def add(d):
            for k, v in d.items():
                out[k] = v if k not in out or out[k] == v else ("A", v[1])
        k = n["k"]
        if k == "MemberExpr" and n.get("field"):
            out[(n.get("owner"), n["name"])] = (form, n.get("t", ""))
            for c in n.get("c", ()):
                if f.nodes.get(c, {}).get("k") != "CXXThisExpr":
                    add(self.reads(f, c, "A", seen, locs))
            return out
        if k == "DeclRefExpr" and n.get("dk") == "local":
            locs[n["d"]] = form if locs.get(n["d"], form) == form else "A"
            return out
        kids = list(n.get("c", ()))
        if "obj" in n:
            kids.append(n["obj"])
        if k == "UnaryOperator" and n.get("op") == "!":
            form = {"T": "F", "F": "T"}.get(form, "A")
        elif k in CASTS:
            pass
        elif k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            pass
        elif k == "BinaryOperator" and len(kids) == 2:
            z = [f.nodes.get(c, {}).get("cv") for c in kids]
            op = n.get("op")
            if z[1] == 0 and op in (">", "!="):
                kids = kids[:1]
            elif z[0] == 0 and op in ("<", "!="):
                kids = kids[1:]
            elif z[1] == 0 and op in ("==", "<=") or z[0] == 0 and op in ("==", ">="):
                form = {"T": "F", "F": "T"}.get(form, "A")
                kids = kids[:1] if z[1] == 0 else kids[1:]
            elif z[1] == 1 and op in (">=", "=="):
                kids = kids[:1]
            elif z[1] == 1 and op == "<":
                form = {"T": "F", "F": "T"}.get(form, "A")
                kids = kids[:1]
            else:
                form = "A"
        elif "callee" in n:
            g = self.P.fns.get(n["callee"])
            if n.get("op") == "[]" or n.get("meth") == "at":
                # element of a container: counts like the element
                if "obj" in n:
                    add(self.reads(f, n["obj"], form, seen, locs))
                return out
            if g is not None and len(seen) < 400:
                rs = [r for r in g.nodes.values() if r["k"] == "ReturnStmt" and r.get("c")]
                for r in rs:
                    add(self.reads(g, r["c"][0], form if len(rs) == 1 else "A", seen, {}))
            form = "A"
        else:
            form = "A"
        for c in kids:
            add(self.reads(f, c, form, seen, locs))
        return out

    def predicate(self, f, scc):
        out = {}
        for c in self.conditions(f, scc):
            # the branch back into the loop is taken when the condition holds (clang keeps source conditions)
            locs = {}
            blk = [f.blocks[b] for b in scc if (f.blocks[b].get("t") or {}).get("lc", (f.blocks[b].get("t") or {}).get("c")) == c]
            form = "T"
            for b in blk:
                ss = b["s"]
                if len(ss) == 2 and ss[0] not in scc and ss[1] in scc:
                    form = "F"
                elif len(ss) == 2 and ss[0] in scc and ss[1] in scc:
                    form = "T" if (b.get("t") or {}).get("op") == "&&" else "A"
            d = self.reads(f, c, form, set(), locs)
            done = set()
            while set(locs) - done:
                v = sorted(set(locs) - done)[0]
                done.add(v)
                srcs = []
                for n in f.nodes.values():
                    if n["k"] == "DeclStmt":
                        for x in n.get("vars", ()):
                            if x["d"] == v and "init" in x:
                                srcs.append(x["init"])
                    elif n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=":
                        tgt = n["c"][0] if n["k"] == "BinaryOperator" else n.get("obj")
                        t = self.strip(f, tgt) or {}
                        if t.get("d") == v:
                            srcs.append(n["c"][-1])
                for src in srcs:
                    # a local that only names the test keeps its sense
                    fm = locs[v] if len(srcs) == 1 else "A"
                    for k2, x in self.reads(f, src, fm, set(), locs).items():
                        d[k2] = x if k2 not in d or d[k2] == x else ("A", x[1])
            for k, v in d.items():
                out[k] = v if k not in out or out[k] == v else ("A", v[1])
        return {k: v for k, v in out.items() if not any(o in v[1] for o in OWN)}

    # ------------------------------------------------------------ waits
    def waits(self):
        preds = {}      # cond -> {field: (form, type, wait site)}
        sites = {}
        work = []
        for f in self.P.fns.values():
            for n in f.nodes.values():
                if n.get("cname") == WAITC and n["k"] != "DeclRefExpr" and f.cls != "wsrep::condition_variable":
                    cond = self.member(f, n["obj"]) if "obj" in n else None
                    if cond is None:
                        raise AnalysisBroken("cannot tell the condition variable waited for at %s" % self.where(f, n))
                    work.append((f, n, cond[:2], 0))
        for f, n, cond, d in work:
            p = self.positions(f).get(n["i"])
            scc = self.cycle(f, p[0]) if p else set()
            fields = self.predicate(f, scc) if scc else {}
            if not fields:
                # a helper that only waits: its callers have to loop
                cs = self.callers.get(f.key, [])
                if cs and d < 3:
                    work += [(g, m, cond, d + 1) for g, m in cs]
                    continue
                self.ctx.violation("wait loop", self.where(f, n), "condition wait does not re-test its predicate in a loop")
                continue
            self.ctx.inst("wait", "%s on %s until %s" % (self.where(f, n), cond[1], ", ".join(
                "%s::%s" % k for k in sorted(fields))))
            sites.setdefault(cond, set()).add((f.key, n["i"]))
            for k, v in fields.items():
                o = preds.setdefault(cond, {})
                o[k] = v if k not in o or o[k][0] == v[0] else ("A", v[1])
        return preds, sites

    # ------------------------------------------------------------ loops that wait without sleeping
    def spins(self):
        """loops that test shared fields again and again, but neither change them nor give others the chance to"""
        for f in self.P.fns.values():
            done = set()
            for b in f.blocks.values():
                if b["id"] in done:
                    continue
                scc = self.cycle(f, b["id"])
                if not scc:
                    continue
                done |= scc
                conds = self.conditions(f, scc)
                reads = self.predicate(f, scc)
                reads = {k: v for k, v in reads.items() if k[0] in ("wsrep::server_state", "wsrep::client_state",
                                                                    "wsrep::transaction")}
                if not conds or not reads:
                    continue
                self.ctx.inst("loop", "%s:%s (%s)" % (f.file, f.line, f.name))
                if not any(self.progress(f, f.nodes[e["s"]]) for x in scc for e in f.blocks[x]["e"] if "s" in e):
                    self.ctx.violation("wait loop", "%s:%s (%s)" % (f.file, f.line, f.name), "loop tests %s but neither waits "
                                       "nor changes anything" % ", ".join(sorted(k[1] for k in reads)))

    def progress(self, f, n):
        k = n["k"]
        if k in ("DeclRefExpr",):
            return False
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and \
                n["op"] not in ("==", "!=", "<=", ">="):
            return True
        if k == "UnaryOperator" and n.get("op") in ("++", "--"):
            return True
        if "callee" in n and not n.get("ctor") and not n.get("const") and "obj" in n and n.get("op") != "<<" and \
                not n.get("cname", "").startswith("wsrep::log"):
            return True
        return False

    # ------------------------------------------------------------ writes
    def writes(self, fields):
        """(fn, node, field, direction): direction 'fall' (towards 0), 'rise', 'any' or ('param', index)"""
        for f in self.P.fns.values():
            # nobody waits for a session or server that is being made
            if f.cls and f.name in (f.cls + "::" + f.cls.split("::")[-1], "wsrep::client_state::open"):
                continue
            for n in f.nodes.values():
                k = n["k"]
                if k == "UnaryOperator" and n.get("op") in ("++", "--"):
                    m = self.member(f, n["c"][0])
                    if m and m[:2] in fields:
                        yield f, n, m[:2], "rise" if n["op"] == "++" else "fall"
                elif k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ("=", "+=", "-=", "&=", "|=", "^="):
                    m = self.member(f, n["c"][0])
                    if m and m[:2] in fields:
                        v = self.strip(f, n["c"][1]) or {}
                        cv = f.nodes.get(n["c"][1], {}).get("cv", v.get("cv"))
                        d = "any"
                        if n["op"] in ("-=", "&="):
                            d = "fall"
                        elif n["op"] in ("+=", "|="):
                            d = "rise"
                        elif n["op"] == "=" and cv is not None:
                            d = "rise" if cv else "fall"
                        elif n["op"] == "=" and v.get("k") == "BinaryOperator" and v.get("op") in ("+", "-"):
                            d = self.step(f, v, m[:2])
                        elif n["op"] == "=" and v.get("dk") == "parm":
                            for i, p in enumerate(f.params):
                                if p["d"] == v["d"]:
                                    d = ("param", i)
                        yield f, n, m[:2], d
                elif "obj" in n and (k in ("CXXMemberCallExpr", "CXXOperatorCallExpr")):
                    cls = n.get("cls", "")
                    if not cls.startswith("std::") and not n.get("assign") and n.get("op") != "=":
                        continue
                    meth = n.get("meth") or ""
                    if meth in GROW or meth in MUTATE or n.get("op") == "=":
                        o = self.strip(f, n["obj"])
                        if o is None or o["k"] != "MemberExpr":
                            m = None if meth in MUTATE | GROW else self.member(f, n["obj"])
                        else:
                            m = self.member(f, n["obj"])
                        if m and m[:2] in fields:
                            yield f, n, m[:2], "grow" if meth in GROW else "fall" if meth in MUTATE and meth != "operator=" else "any"

    def step(self, f, v, fld):
        """x = x + 1, x = x - 1, x = 1 + x"""
        a, b = v["c"]
        for x, y in ((a, b), (b, a)):
            m = self.member(f, x)
            c = f.nodes.get(y, {}).get("cv")
            if m and m[:2] == fld and c is not None and (x == a or v["op"] == "+"):
                return "rise" if (c > 0) == (v["op"] == "+") else "fall"
        return "any"

    def notifies(self, f, n, cond):
        """does this call notify cond on every path?"""
        if n.get("cname") in NOTIFY and "obj" in n:
            m = self.member(f, n["obj"])
            return m is not None and m[:2] == cond
        g = self.P.fns.get(n.get("callee"))
        if g is None or n["k"] == "DeclRefExpr":
            return False
        return self.must_notify(g, cond)

    def must_notify(self, g, cond):
        k = (g.key, cond)
        if k in self.must:
            return self.must[k]
        self.must[k] = False
        r = not self.escapes(g, g.entry, -1, cond)
        self.must[k] = r
        return r

    def escapes(self, f, bid, idx, cond):
        """can control reach the normal end of f from here without a notification?"""
        seen = set()
        work = [(bid, idx + 1)]
        while work:
            b, i = work.pop()
            blk = f.blocks[b]
            stop = False
            for e in blk["e"][i:]:
                if "s" not in e:
                    continue
                n = f.nodes[e["s"]]
                if n["k"] == "CXXThrowExpr" or n.get("noreturn") or n.get("cname") == "__assert_fail":
                    stop = True
                    break
                if "callee" in n and n["k"] != "DeclRefExpr" and self.notifies(f, n, cond):
                    stop = True
                    break
            if stop:
                continue
            if b == f.exit:
                return True
            for s in blk["s"]:
                if s is not None and s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return False

    def preds(self, f):
        r = {}
        for b in f.blocks.values():
            for s in b["s"]:
                if s is not None:
                    r.setdefault(s, []).append(b["id"])
        return r

    def backwards(self, f, bid, idx, stop):
        """walk back from an element; stop(node) -> True ends the path; yields whether the entry was reached"""
        pr = self.preds(f)
        seen = set()
        work = [(bid, idx - 1)]
        while work:
            b, i = work.pop()
            blk = f.blocks[b]
            hit = False
            for e in reversed(blk["e"][:i + 1] if i is not None else blk["e"]):
                if "s" in e and stop(f.nodes[e["s"]]):
                    hit = True
                    break
                if "s" not in e and stop(e):
                    hit = True
                    break
            if hit:
                continue
            if b == f.entry:
                yield True
            for s in pr.get(b, ()):
                if s not in seen:
                    seen.add(s)
                    work.append((s, None))

    def releases(self, n, depth=0, seen=None):
        """may this element release a mutex?"""
        seen = set() if seen is None else seen
        if "k" not in n:
            return True            # a destructor at the end of a scope
        if "callee" not in n or n["k"] == "DeclRefExpr":
            return False
        if n.get("cname") == WAITC or n.get("cname", "").split("::")[-1] == "unlock":
            return True
        g = self.P.fns.get(n["callee"])
        if g is None or g.key in seen:
            return False
        seen.add(g.key)
        return any(self.releases(x, depth + 1, seen) for x in g.nodes.values())

    def notified_before(self, f, bid, idx, cond):
        bad = []

        def stop(n):
            if "k" in n and "callee" in n and n["k"] != "DeclRefExpr" and self.notifies(f, n, cond) and \
                    not (self.P.fns.get(n["callee"]) and self.releases(n)):
                return True
            if self.releases(n):
                bad.append(n)
                return True
            return False
        return not any(self.backwards(f, bid, idx, stop)) and not bad

    def released_before(self, f, bid, idx):
        bad = []

        def stop(n):
            if self.releases(n):
                bad.append(n)
                return True
            return False
        for _ in self.backwards(f, bid, idx, stop):
            pass
        return bool(bad)

    def blocking(self, form, d):
        return d == "grow" or form == "T" and d == "rise" or form == "F" and d == "fall"

    def check(self):
        preds, sites = self.waits()
        self.spins()
        n = 0
        for cond, fields in sorted(preds.items()):
            for f, node, fld, d in self.writes(set(fields)):
                form = fields[fld][0]
                if self.blocking(form, d):
                    continue
                n += 1
                self.ctx.inst("enabling write", "%s %s" % (fld[1], self.where(f, node)))
                self.follow(f, node, fld, form, d, cond, self.where(f, node), 0, set())
            for f in self.P.fns.values():
                for x in f.nodes.values():
                    if x.get("cname") == NOTIFY[1] and x["k"] != "DeclRefExpr" and "obj" in x and len(sites[cond]) > 1:
                        m = self.member(f, x["obj"])
                        if m and m[:2] == cond:
                            self.ctx.violation("wake-up", self.where(f, x), "only one of the threads that wait for %s "
                                               "is woken up" % cond[1])
        self.ctx.count("obligations", n)

    def follow(self, f, node, fld, form, d, cond, origin, depth, seen, inside=True):
        p = self.positions(f).get(node["i"])
        if p is None:
            # not an element of its own: part of an enclosing element
            p = self.enclosing(f, node["i"])
            if p is None:
                return
        if not self.escapes(f, p[0], p[1], cond):
            return
        # a waiter cannot run before the mutex is released: a notification earlier in the same critical section
        # wakes it up as well
        if inside and self.notified_before(f, p[0], p[1], cond):
            return
        inside = inside and not self.released_before(f, p[0], p[1])
        if f.key in seen or depth > 6:
            return
        seen = seen | {f.key}
        cs = self.callers.get(f.key, [])
        if not cs or self.api(f) and type(d) is not tuple:
            self.ctx.violation("wake-up", origin, "threads waiting for %s::%s are not notified by the time %s returns"
                               % (fld[0].replace("wsrep::", ""), fld[1], f.short()))
            return
        for g, m in cs:
            dd = d
            if type(d) is tuple:
                a = m.get("c", [])
                cv = None
                if d[1] < len(a):
                    cv = g.nodes.get(a[d[1]], {}).get("cv")
                dd = "any" if cv is None else "rise" if cv else "fall"
                if self.blocking(form, dd):
                    continue
            self.follow(g, m, fld, form, dd, cond, origin, depth + 1, seen, inside)

    def api(self, f):
        """called by the DBMS directly"""
        return f.cls in ("wsrep::client_state", "wsrep::server_state") and f.raw.get("pub")

    def enclosing(self, f, i):
        par = {}
        for n in f.nodes.values():
            for c in list(n.get("c", ())) + ([n["obj"]] if "obj" in n else []):
                par.setdefault(c, n["i"])
        pos = self.positions(f)
        while i in par:
            i = par[i]
            if i in pos:
                return pos[i]
        return None


def run(ctx):
    W = Wakeups(ctx.program(), ctx)
    W.check()
    ctx.functions |= {f.key for f in W.P.fns.values()}
