"""Results of the provider and the DBMS: every call that can fail has its result looked at."""
from ir import AnalysisBroken
from wakeups import Wakeups, CASTS

IFACES = ("wsrep::provider", "wsrep::server_service", "wsrep::client_service", "wsrep::high_priority_service",
          "wsrep::storage_service")
BINDING = CASTS | {"CXXConstructExpr", "ConditionalOperator", "InitListExpr"}


class Results(Wakeups):
    def __init__(self, P, ctx):
        super().__init__(P, ctx)
        self.par = {}

    def parents(self, f):
        p = self.par.get(f.key)
        if p is None:
            p = self.par[f.key] = {}
            for n in f.nodes.values():
                for k, c in enumerate(n.get("c", ())):
                    p.setdefault(c, []).append((n, k))
                if "obj" in n:
                    p.setdefault(n["obj"], []).append((n, "obj"))
                for v in n.get("vars", ()):
                    if "init" in v:
                        p.setdefault(v["init"], []).append((n, ("var", v["d"])))
        return p

    def fallible(self, n):
        c = n.get("cname", "")
        cls, _, meth = c.rpartition("::")
        if n["k"] == "DeclRefExpr" or "callee" not in n:
            return False
        t = n.get("t", "")
        if cls in IFACES and n.get("pure"):
            return t == "int" or "provider::status" in t
        return False

    def fate(self, f, n):
        """'used', 'dropped' or ('local', d, node)"""
        par = self.parents(f)
        i = n["i"]
        while True:
            ps = par.get(i)
            if not ps:
                # condition or operand of control flow?
                for b in f.blocks.values():
                    t = b.get("t") or {}
                    if i in (t.get("c"), t.get("lc")):
                        return "used"
                return "dropped"
            q, k = ps[0]
            if q["k"] == "DeclStmt":
                return ("local", k[1], q)
            if q["k"] in CASTS:
                if q.get("t") == "void":
                    return "dropped"
                i = q["i"]
                continue
            if q["k"] in ("ExprWithCleanups",):
                i = q["i"]
                continue
            if q["k"] in ("BinaryOperator", "CompoundAssignOperator") and q.get("op") == "=" and k == 1:
                t = self.strip(f, q["c"][0])
                if t is not None and t["k"] == "DeclRefExpr" and t.get("dk") == "local":
                    return ("local", t["d"], q)
                return "used"
            if q["k"] == "BinaryOperator" and q.get("op") == ",":
                if k == 0:
                    return "dropped"
                i = q["i"]
                continue
            if q["k"] in ("BinaryOperator",) and q.get("op") in ("||", "&&"):
                if k == 0:
                    return "used"
                i = q["i"]
                continue
            return "used"

    def reads_of(self, f, d, skip):
        out = set()
        par = self.parents(f)
        for n in f.nodes.values():
            if n["k"] == "DeclRefExpr" and n.get("d") == d:
                ps = par.get(n["i"])
                if ps:
                    q, k = ps[0]
                    if q["k"] == "BinaryOperator" and q.get("op") == "=" and k == 0:
                        continue
                out.add(n["i"])
        return out

    def unread(self, f, d, node):
        """is there a path from the definition to the end of the function or to another definition without a read?"""
        pos = self.positions(f)
        p = pos.get(node["i"]) or self.enclosing(f, node["i"])
        if p is None:
            return False
        rd = self.reads_of(f, d, node)
        defs = set()
        for n in f.nodes.values():
            if n["k"] == "BinaryOperator" and n.get("op") == "=" and n is not node:
                t = self.strip(f, n["c"][0])
                if t is not None and t.get("d") == d:
                    defs.add(n["i"])
        seen, work = set(), [(p[0], p[1] + 1)]
        while work:
            b, i = work.pop()
            stop = False
            for e in f.blocks[b]["e"][i:]:
                if "s" in e:
                    if e["s"] in rd or self.inside(f, e["s"], rd):
                        stop = True
                        break
                    if e["s"] in defs:
                        return True
                    if f.nodes[e["s"]]["k"] == "CXXThrowExpr" or f.nodes[e["s"]].get("noreturn"):
                        stop = True
                        break
            if stop:
                continue
            if b == f.exit:
                return True
            for s in f.blocks[b]["s"]:
                if s is not None and s not in seen:
                    seen.add(s)
                    work.append((s, 0))
        return False

    def inside(self, f, i, rd):
        return False

    def run(self):
        for f in self.P.fns.values():
            for n in f.nodes.values():
                if not self.fallible(n):
                    continue
                r = self.fate(f, n)
                res = "used"
                if r == "dropped":
                    res = "dropped"
                elif type(r) is tuple and self.unread(f, r[1], r[2]):
                    res = "unread"
                yield f, n, res
