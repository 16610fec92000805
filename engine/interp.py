"""Interprocedural, path-sensitive dataflow over the clang CFGs of the analysed tree.

The abstract state maps access paths to abstract values (constants, symbols constrained to
finite sets / intervals, references).  Every function is analysed as a dataflow problem over its
CFG in the powerset of abstract states (states are merged when equal; loops are iterated to a
fixpoint); calls to functions of the tree are followed context-sensitively; calls through the
library's abstract interfaces (provider, client/server/storage/high-priority service) are events
whose outcome is left open.  Typestate monitors ride along and report violations.
"""
import sys
from ir import AnalysisBroken

sys.setrecursionlimit(20000)

INF = None
U = "U"
EMPTYFS = frozenset()
EMPTY_CONTENT = "EMPTY"


# expressions without effects: evaluated where their value is used
PURE = {"DeclRefExpr", "ImplicitCastExpr", "MemberExpr", "CXXThisExpr", "IntegerLiteral", "CXXBoolLiteralExpr",
        "CXXNullPtrLiteralExpr", "StringLiteral", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr",
        "CXXConstCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
        "ConstantExpr", "CXXDefaultArgExpr", "CharacterLiteral", "CXXDefaultInitExpr"}


class Limit(AnalysisBroken):
    pass


def refs_of(v, syms, roots):
    t = v[0] if v else None
    if t == "s":
        syms.add(v[1])
    elif t == "p" or t == "l":
        roots.add(v[1][0])
        for x in v[1][1:]:
            if type(x) is tuple:
                refs_of(x, syms, roots)
    else:
        for x in v:
            if type(x) is tuple:
                refs_of(x, syms, roots)


class Rec:
    __slots__ = ("d", "h", "r", "f")

    def __init__(self, d):
        self.d = d
        self.f = False
        self.h = None
        self.r = None

    def __reduce__(self):
        return (Rec, (self.d,))

    def refs(self):
        if self.r is None:
            syms, roots = set(), set()
            for v in self.d.values():
                if type(v) is tuple:
                    refs_of(v, syms, roots)
            self.r = (frozenset(syms), frozenset(roots))
        return self.r

    def key(self):
        if self.h is None:
            self.h = frozenset(self.d.items())
        return self.h


class St:
    __slots__ = ("store", "cons", "atoms", "mon", "env", "frames", "trace", "live")

    def __init__(self):
        self.store = {}
        self.cons = {}
        self.atoms = {}
        self.mon = {}
        self.env = {}
        self.frames = None      # (parent frames, env, live)
        self.trace = None       # (parent, text) -- not part of the key
        self.live = ()

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.cons = dict(self.cons)
        s.atoms = dict(self.atoms)
        s.mon = dict(self.mon)
        s.env = dict(self.env)
        s.frames = self.frames
        s.trace = self.trace
        s.live = self.live
        return s

    def key(self):
        return (frozenset((r, c.key()) for r, c in self.store.items()),
                frozenset(self.cons.items()), frozenset(self.atoms.items()),
                frozenset(self.mon.items()), frozenset(self.env.items()), self.live)

    # -- store --
    def get(self, loc):
        r = self.store.get(loc[0])
        if r is None:
            return None
        return r.d.get(loc[1:])

    def put(self, loc, v):
        r = self.store.get(loc[0])
        d = dict(r.d) if r is not None else {}
        d[loc[1:]] = v
        self.store[loc[0]] = Rec(d)

    def clear(self, loc):
        r = self.store.get(loc[0])
        if r is None:
            return
        p = loc[1:]
        n = len(p)
        if n == 0:
            del self.store[loc[0]]
            return
        d = {k: v for k, v in r.d.items() if k[:n] != p}
        self.store[loc[0]] = Rec(d)

    def sub(self, loc):
        r = self.store.get(loc[0])
        if r is None:
            return []
        p = loc[1:]
        n = len(p)
        return [(k[n:], v) for k, v in r.d.items() if k[:n] == p]

    def log(self, text):
        self.trace = (self.trace, text)

    def __reduce__(self):
        return (_mkst, (self.store, self.cons, self.atoms, self.mon, self.env, self.live))

    def trace_list(self, n=400):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def _mkst(store, cons, atoms, mon, env, live):
    s = St()
    s.store, s.cons, s.atoms, s.mon, s.env, s.live = store, cons, atoms, mon, env, live
    return s


# ---------------------------------------------------------------- constraints
def dom(P, t):
    if t == "bool":
        return ("S", frozenset((0, 1)))
    e = P.enums.get(t)
    if e is not None and len(e) <= 40:
        return ("S", frozenset(e.values()))
    if t in ("unsigned int", "unsigned long", "unsigned long long", "unsigned char", "unsigned short") \
            or t.endswith("*"):
        return ("I", 0, INF, EMPTYFS)
    return ("I", INF, INF, EMPTYFS)


def c_refine(c, op, k):
    """constraint c refined by (x op k); None if infeasible."""
    if c[0] == "S":
        s = c[1]
        if op == "==":
            r = s & frozenset((k,))
        elif op == "!=":
            r = s - frozenset((k,))
        elif op == "<":
            r = frozenset(x for x in s if x < k)
        else:
            r = frozenset(x for x in s if x >= k)
        return ("S", r) if r else None
    _, lo, hi, ex = c
    if op == "==":
        if (lo is not None and k < lo) or (hi is not None and k > hi) or k in ex:
            return None
        return ("S", frozenset((k,)))
    if op == "!=":
        if lo is not None and k == lo:
            lo = lo + 1
            while lo in ex:
                lo += 1
        elif hi is not None and k == hi:
            hi = hi - 1
            while hi in ex:
                hi -= 1
        else:
            if (lo is not None and k < lo) or (hi is not None and k > hi):
                return c
            ex = ex | frozenset((k,))
    elif op == "<":
        if hi is None or hi >= k:
            hi = k - 1
    else:
        if lo is None or lo < k:
            lo = k
    if lo is not None and hi is not None:
        if lo > hi:
            return None
        if hi - lo < 8:
            s = frozenset(x for x in range(lo, hi + 1) if x not in ex)
            return ("S", s) if s else None
    ex = frozenset(x for x in ex if (lo is None or x >= lo) and (hi is None or x <= hi))
    return ("I", lo, hi, ex)


def c_decide(c, op, k):
    """True/False/None for (x op k)."""
    if c_refine(c, op, k) is None:
        return False
    neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<"}[op]
    if c_refine(c, neg, k) is None:
        return True
    return None


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<"}


def is_sym(v):
    return type(v) is tuple and v[0] == "s"


class Violation:
    def __init__(self, prop, rule, where, msg, stack, trace, extra=None):
        self.prop = prop
        self.rule = rule
        self.where = where
        self.msg = msg
        self.stack = stack
        self.trace = trace
        self.extra = extra or {}

    def ident(self):
        return (self.rule, self.where, self.msg)


class Interp:
    def __init__(self, P, max_steps=40_000_000):
        self.P = P
        self.monitors = []
        self.by_event = {}
        self.models = {}         # cname -> callable(I, st, call) -> [(st, ret)]
        self.violations = {}
        self.stack = []          # [(Fn, line)]
        self.steps = 0
        self.max_steps = max_steps
        self.on_acquire = None   # (I, st, mutexloc) -> [st]
        self.on_release = None
        self.watch = set()       # field names whose writes are events ('*' = all)
        self.inline_virtual = {"wsrep::client_state", "wsrep::server_state", "wsrep::transaction"}
        self.unknown_results = {"wsrep::log::debug_log_level", "wsrep::client_state::debug_log_level"}
        self.skip_classes = ("wsrep::log",)
        self.memo_virtual = set()
        self.cur_line = 0
        self.cov = {"functions": set(), "blocks": set(), "calls": 0, "states": 0, "events": 0}
        self.notes = {}          # name -> set of instances (coverage for evidence)
        self._live = {}
        self._elem_ids = {}
        self._logonly = {}
        self._linear = {}
        self._owner = None
        self.fork_bool = True
        self.kill_assert = True
        self.assert_mode = "assume"   # for non-NDEBUG runs: 'event' => event + path end
        self.no_inline = set()
        self.keep = None         # locations of keep_roots that are tracked (None: all)
        self.keep_roots = ("C", "S")

    # ---------------------------------------------------------------- reporting
    def where(self):
        if not self.stack:
            return "?"
        f, line = self.stack[-1]
        return "%s:%s (%s)" % (f.file, self.cur_line or line, f.name)

    def report(self, prop, rule, st, msg, where=None, **extra):
        stack = ["%s (called at line %s)" % (f.name, l) for f, l in self.stack]
        v = Violation(prop, rule, where or self.where(), msg, stack, st.trace_list() if st else [], extra)
        self.violations.setdefault(v.ident(), v)

    def emit(self, st, ev):
        self.cov["events"] += 1
        for m in self.by_event.get(ev.kind, ()):
            m.on(self, st, ev)

    def add_monitor(self, m):
        self.monitors.append(m)
        for k in m.kinds:
            self.by_event.setdefault(k, []).append(m)

    # ---------------------------------------------------------------- symbols
    def sym(self, st, sid, c):
        """fresh symbol identified by its creation site."""
        if sid in st.cons:
            self.gc(st)
            if sid in st.cons:
                k = 1
                while (("k", k) + sid) in st.cons and k < 3:
                    k += 1
                tgt = ("k", k) + sid
                if tgt in st.cons:
                    self.rename(st, tgt, None)
                self.rename(st, sid, tgt)
        st.cons[sid] = c
        return ("s", sid, 0)

    def rename(self, st, old, new):
        def sub(v):
            if type(v) is tuple and v:
                if v[0] == "s" and v[1] == old:
                    return ("s", new, v[2]) if new is not None else U
                if v[0] in ("p", "l"):
                    r = v[1][0]
                    if type(r) is tuple and r[0] == "o" and r[1] == old:
                        return (v[0], ((("o", new),) if new is not None else (("o", ("dead", old)),)) + v[1][1:])
                    return v
                return tuple(sub(x) for x in v)
            return v
        for r in list(st.store):
            rec = st.store[r]
            ch = False
            d = {}
            for k, v in rec.d.items():
                w = sub(v) if type(v) is tuple else v
                if w is not v:
                    ch = ch or w != v
                d[k] = w
            nr = r
            if type(r) is tuple and r[0] == "o" and r[1] == old:
                nr = ("o", new) if new is not None else ("o", ("dead", old))
                del st.store[r]
                st.store[nr] = Rec(d)
            elif ch:
                st.store[r] = Rec(d)
        st.env = {k: sub(v) for k, v in st.env.items()}
        st.mon = {k: sub(v) for k, v in st.mon.items()}
        na = {}
        for k, v in st.atoms.items():
            nk = tuple(sub(x) for x in k)
            nv = sub(("s", v, 0))
            if nv == U or U in nk:
                continue
            na[nk] = nv[1]
        st.atoms = na
        fr = st.frames
        if fr is not None:
            def frs(f):
                if f is None:
                    return None
                return (frs(f[0]), {k: sub(v) for k, v in f[1].items()}, f[2], f[3], [])
            st.frames = frs(fr)
        c = st.cons.pop(old, None)
        if new is not None:
            st.cons[new] = c

    def gc(self, st, livevars=None, fn=None):
        """drop storage, symbols and atoms nothing can refer to any more."""
        syms = set()
        roots = set()
        if self.keep is not None:
            for r in self.keep_roots:
                rec = st.store.get(r)
                if rec is not None and not rec.f:
                    keep = self.keep
                    d = {p: v for p, v in rec.d.items() if (r,) + p in keep}
                    if len(d) != len(rec.d):
                        rec = Rec(d)
                        st.store[r] = rec
                    rec.f = True
        owner = self.owner()
        for r in st.store:
            if type(r) is str or r[0] == "g":
                roots.add(r)
            elif r[0] == "v":
                if livevars is None or owner.get(r) != fn or r in livevars:
                    roots.add(r)
        for v in st.env.values():
            if type(v) is tuple:
                refs_of(v, syms, roots)
        for v in st.mon.values():
            if type(v) is tuple:
                refs_of(v, syms, roots)
        fr = st.frames
        while fr is not None:
            c = fr[4]
            if c is None or not c:
                a, b = set(), set()
                for v in fr[1].values():
                    if type(v) is tuple:
                        refs_of(v, a, b)
                c.append(frozenset(a))
                c.append(frozenset(b))
            syms |= c[0]
            roots |= c[1]
            fr = fr[0]
        store = st.store
        cons = st.cons
        done_r = set()
        done_s = set()
        while True:
            while True:
                nr = roots - done_r
                ns = syms - done_s
                if not nr and not ns:
                    break
                for x in nr:
                    done_r.add(x)
                    if type(x) is tuple and x[0] == "o" and type(x[1]) is tuple:
                        syms.add(x[1])
                    rec = store.get(x)
                    if rec is not None:
                        a, b = rec.refs()
                        syms |= a
                        roots |= b
                for x in ns:
                    done_s.add(x)
                    o = ("o", x)
                    if o in store:
                        roots.add(o)
            if not st.atoms:
                break
            more = False
            for a, s in st.atoms.items():
                if s not in syms and all(self._alive(x, syms) for x in a[1:]):
                    syms.add(s)
                    more = True
            if not more:
                break
        if any(r not in roots for r in store):
            st.store = {r: c for r, c in store.items() if r in roots}
        if any(s not in syms for s in cons):
            st.cons = {s: c for s, c in cons.items() if s in syms}
        if st.atoms:
            st.atoms = {a: s for a, s in st.atoms.items()
                        if s in syms and all(self._alive(x, syms) for x in a[1:])}

    def _alive(self, x, seen):
        if type(x) is tuple:
            if x and x[0] == "s":
                return x[1] in seen
            return all(self._alive(y, seen) for y in x[1:])
        return True

    def owner(self):
        if self._owner is None:
            o = {}
            for f in self.P.fns.values():
                for p in f.params:
                    o[("v", f.tu, p["d"])] = f.key
                for n in f.nodes.values():
                    if n["k"] == "DeclStmt":
                        for v in n["vars"]:
                            o[("v", f.tu, v["d"])] = f.key
            self._owner = o
        return self._owner

    # ---------------------------------------------------------------- values
    def cmp(self, st, op, a, b):
        if op in (">", "<="):
            # a > b  <=> b < a ; a <= b <=> b >= a
            if op == ">":
                return self.cmp(st, "<", b, a)
            return self.cmp(st, ">=", b, a)
        if a == U or b == U:
            return U
        a = self.norm(st, a)
        b = self.norm(st, b)
        ia, ib = type(a) is int, type(b) is int
        if ia and ib:
            return int({"==": a == b, "!=": a != b, "<": a < b, ">=": a >= b}[op])
        pa = type(a) is tuple and a[0] in ("p",)
        pb = type(b) is tuple and b[0] in ("p",)
        if pa and ib or pb and ia:
            k = b if ib else a
            if k == 0:
                return {"==": 0, "!=": 1}.get(op, U)
            return U
        if pa and pb:
            if a[1] == b[1]:
                return {"==": 1, "!=": 0, "<": 0, ">=": 1}[op]
            if type(a[1][0]) is str and type(b[1][0]) is str:
                return {"==": 0, "!=": 1}.get(op, U)
        if is_sym(a) and ib:
            return ("cmp", op, a, b)
        if ia and is_sym(b):
            if op in ("==", "!="):
                return ("cmp", op, b, a)
            if op == "<":     # a < b <=> b >= a+1
                return ("cmp", ">=", b, a + 1)
            return ("cmp", "<", b, a + 1)
        if is_sym(a) and is_sym(b) and a[1] == b[1]:
            return int({"==": a[2] == b[2], "!=": a[2] != b[2], "<": a[2] < b[2], ">=": a[2] >= b[2]}[op])
        if a == b and not (type(a) is tuple and a[0] in ("cmp", "not")):
            return {"==": 1, "!=": 0, "<": 0, ">=": 1}[op]
        if type(a) is tuple and a[0] in ("cmp", "not") and ib:
            if op == "==":
                return a if b == 1 else (self.lnot(a) if b == 0 else 0)
            if op == "!=":
                return self.lnot(a) if b == 1 else (a if b == 0 else 1)
            return U
        if type(b) is tuple and b[0] in ("cmp", "not") and ia:
            return self.cmp(st, op, b, a) if op in ("==", "!=") else U
        # symbolic atom
        neg = False
        if op == "!=":
            op, neg = "==", True
        elif op == ">=":
            op, neg = "<", True
        if op == "==" and repr(a) > repr(b):
            a, b = b, a
        v = self.atom(st, ("a" + op, a, b), ("S", frozenset((0, 1))))
        return ("not", v) if neg else v

    def atom(self, st, key, c):
        s = st.atoms.get(key)
        if s is None or s not in st.cons:
            s = ("at",) + key
            st.cons[s] = c
            st.atoms[key] = s
        return ("s", s, 0)

    def lnot(self, v):
        if type(v) is int:
            return int(not v)
        if v == U:
            return U
        if type(v) is tuple:
            if v[0] == "not":
                return v[1]
            if v[0] == "cmp":
                return ("cmp", NEG[v[1]], v[2], v[3])
            if v[0] == "p":
                return 0
        return ("not", v)

    def norm(self, st, v):
        """symbol with a single possible value -> constant."""
        if type(v) is tuple:
            if v[0] == "s":
                c = st.cons.get(v[1])
                if c is not None and c[0] == "S" and len(c[1]) == 1:
                    return next(iter(c[1])) + v[2]
            elif v[0] == "cmp" or v[0] == "not":
                d = self.decide(st, v)
                if d is not None:
                    return int(d)
        return v

    def decide(self, st, v):
        if type(v) is int:
            return v != 0
        if type(v) is str:
            return None
        t = v[0]
        if t == "s":
            c = st.cons.get(v[1])
            if c is None:
                return None
            return c_decide(c, "!=", -v[2])
        if t == "p" or t == "l":
            return True
        if t == "not":
            d = self.decide(st, v[1])
            return None if d is None else not d
        if t == "cmp":
            s = v[2]
            c = st.cons.get(s[1])
            if c is None:
                return None
            return c_decide(c, v[1], v[3] - s[2])
        return None

    def assume(self, st, v, truth):
        """refine st by v being true/false; False when infeasible."""
        if type(v) is int:
            return (v != 0) == truth
        if type(v) is str:
            return True
        t = v[0]
        if t == "s":
            return self._ref(st, v[1], "!=" if truth else "==", -v[2])
        if t == "p" or t == "l":
            return truth
        if t == "not":
            return self.assume(st, v[1], not truth)
        if t == "cmp":
            op = v[1] if truth else NEG[v[1]]
            return self._ref(st, v[2][1], op, v[3] - v[2][2])
        return True

    def _ref(self, st, sid, op, k):
        c = st.cons.get(sid)
        if c is None:
            return True
        c2 = c_refine(c, op, k)
        if c2 is None:
            return False
        st.cons[sid] = c2
        return True

    def values(self, st, v):
        """finite set of possible ints, or None."""
        v = self.norm(st, v)
        if type(v) is int:
            return {v}
        if is_sym(v):
            c = st.cons.get(v[1])
            if c is not None and c[0] == "S":
                return {x + v[2] for x in c[1]}
        if type(v) is tuple and v[0] in ("cmp", "not"):
            return {0, 1}
        return None

    def may(self, st, v, k):
        v = self.norm(st, v)
        if type(v) is int:
            return v == k
        if v == U:
            return True
        if is_sym(v):
            c = st.cons.get(v[1])
            return c is None or c_decide(c, "==", k - v[2]) is not False
        if type(v) is tuple and v[0] in ("p", "l"):
            return False if k == 0 else True
        return True

    def must(self, st, v, k):
        v = self.norm(st, v)
        return type(v) is int and v == k

    # ---------------------------------------------------------------- memory
    def leaves(self, t, depth=0):
        r = self.P.records.get(t)
        if r is None or not r["repo"] or depth > 6:
            return [((), t)]
        if self.opaque_cls(t):
            return [((), t)]
        out = []
        for b in r["bases"]:
            br = self.P.records.get(b)
            if br is not None and br["repo"]:
                out += self.leaves(b, depth + 1)
        for f in r["fields"]:
            if f.get("rec"):
                for p, tt in self.leaves(f["t"], depth + 1):
                    out.append(((f["name"],) + p, tt))
            else:
                out.append(((f["name"],), f["t"]))
        return out

    OPAQUE = {"wsrep::id", "wsrep::uuid"}

    def opaque_cls(self, t):
        return t in self.OPAQUE

    def is_repo_rec(self, t):
        r = self.P.records.get(t)
        return r is not None and r["repo"] and t not in self.OPAQUE

    def read(self, st, loc, t=""):
        if self.keep is not None and loc[0] in self.keep_roots and loc not in self.keep:
            return U
        v = st.get(loc)
        if v is None:
            v = self.fresh_at(st, loc, t)
            r = loc[0]
            if type(r) is tuple and r[0] == "g" and type(v) is not tuple:
                return v
            st.put(loc, v)
        return v

    def fresh_at(self, st, loc, t):
        # constants of global tables
        r = loc[0]
        if type(r) is tuple and r[0] == "g":
            g = self.P.globals.get(r[1:])
            if g and g.get("const") and "val" in g:
                val = g["val"]
                ok = True
                for x in loc[1:]:
                    if type(x) is tuple and x[0] == "ix" and type(x[1]) is int and type(val) is list \
                            and x[1] < len(val):
                        val = val[x[1]]
                    else:
                        ok = False
                        break
                if ok and type(val) is int:
                    return val
                return U
        if len(loc) > 1 and any(type(x) is tuple and x[0] == "ix" for x in loc[1:]):
            return U
        return self.sym(st, ("f", loc), dom(self.P, t))

    def write(self, st, loc, v, node=None):
        f = loc[-1] if len(loc) > 1 else None
        if (f in self.watch) or "*" in self.watch:
            if len(loc) > 1:
                old = st.get(loc)
                st.put(loc, v)
                self.emit(st, Ev("write", f, loc, (old, v), None, node, self))
                return
        st.put(loc, v)

    def copy_rec(self, st, src, dst, t, node=None):
        if src == dst:
            return
        for p, tt in self.leaves(t):
            self.read(st, src + p, tt)
        items = st.sub(src)
        st.clear(dst)
        for p, v in items:
            self.write(st, dst + p, v, node)
        if not items:
            self.write(st, dst, self.fresh_at(st, dst, t), node)

    def havoc(self, st, loc, t, site):
        st.clear(loc)
        for p, tt in self.leaves(t):
            st.put(loc + p, self.sym(st, ("h", loc + p, site), dom(self.P, tt)))

    def deref(self, st, v, node=None):
        """pointer/reference value -> loc"""
        if type(v) is tuple:
            if v[0] == "p" or v[0] == "l":
                return v[1]
            if v[0] == "s":
                return (("o", v[1]),)
        return (("o", ("unk", self.stack[-1][0].sk if self.stack else "", node["i"] if node else 0)),)

    def loc_of(self, st, v, node=None):
        if type(v) is tuple and v[0] == "l":
            return v[1]
        return self.deref(st, v, node)

    # ---------------------------------------------------------------- functions
    def liveness(self, fn):
        L = self._live.get(fn.key)
        if L is not None:
            return L
        use, defs = {}, {}
        nodes = fn.nodes
        tu = fn.tu

        def kids(n):
            out = list(n.get("c", ()))
            for k in ("obj", "fptr"):
                if n.get(k):
                    out.append(n[k])
            for v in n.get("vars", ()):
                if v.get("init"):
                    out.append(v["init"])
            for c in n.get("caps", ()):
                if c.get("init"):
                    out.append(c["init"])
            return [x for x in out if x]

        def vars_of(n):
            if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
                return [("v", tu, n["d"])]
            return []
        elem_ids = set()
        cond_ids = set()
        for b in fn.blocks.values():
            for e in b["e"]:
                if "s" in e and nodes[e["s"]]["k"] not in PURE:
                    elem_ids.add(e["s"])
            t = b.get("t")
            if t:
                for k in ("lc", "c"):
                    if t.get(k):
                        cond_ids.add(t[k])
        self._elem_ids[fn.key] = elem_ids
        lam = set()
        for n in nodes.values():
            if n["k"] == "LambdaExpr":
                for c in n.get("caps", ()):
                    if "d" in c:
                        lam.add(("v", tu, c["d"]))

        def closure_use(n, acc, seen):
            # everything needed to evaluate n: children that are elements, plus non-element subtrees
            for k in kids(n):
                if k in seen:
                    continue
                seen.add(k)
                if k in elem_ids:
                    acc.add(k)
                elif k in nodes:
                    if k in cond_ids:
                        acc.add(k)
                    for v in vars_of(nodes[k]):
                        acc.add(v)
                    closure_use(nodes[k], acc, seen)
        for bid, b in fn.blocks.items():
            u, d = set(), set()
            for e in b["e"]:
                if "s" in e:
                    n = nodes[e["s"]]
                    if n["k"] in PURE:
                        continue
                    acc = set()
                    closure_use(n, acc, set())
                    acc.update(vars_of(n))
                    for x in acc:
                        if x not in d:
                            u.add(x)
                    d.add(e["s"])
                elif "dtorv" in e:
                    u.add(("v", tu, e["dtorv"]))
                elif e.get("init"):
                    n = nodes[e["init"]]
                    acc = set()
                    if e["init"] in elem_ids:
                        acc.add(e["init"])
                    else:
                        acc.update(vars_of(n))
                        closure_use(n, acc, set())
                    for x in acc:
                        if x not in d:
                            u.add(x)
            t = b.get("t")
            if t:
                for k in ("lc", "c"):
                    x = t.get(k)
                    if x:
                        if x in elem_ids:
                            if x not in d:
                                u.add(x)
                        elif x in nodes:
                            acc = set()
                            acc.update(vars_of(nodes[x]))
                            closure_use(nodes[x], acc, set())
                            u.update(y for y in acc if y not in d)
            use[bid], defs[bid] = u, d
        live = {b: set() for b in fn.blocks}
        succs = {b: [s for s in fn.blocks[b]["s"] if s is not None] for b in fn.blocks}
        if fn.try_blocks:
            tb = list(fn.try_blocks.values())
            for b in fn.blocks:
                if b not in tb:
                    succs[b] = succs[b] + tb
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                out = set()
                for s in succs[b]:
                    out |= live[s]
                n = use[b] | (out - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        res = {}
        for b, s in live.items():
            ints = frozenset(x for x in s if type(x) is int)
            vs = frozenset(x for x in s if type(x) is tuple) | lam
            res[b] = (ints, vs)
        self._live[fn.key] = res
        return res

    def run(self, fn, st, this=None, args=(), line=0, captured=None):
        """Analyse fn from st. Returns [(kind, st, value)], kind in ret/exc."""
        if any(f is fn for f, _ in self.stack):
            # recursion: not followed
            self.cov.setdefault("recursion", set()).add(fn.key)
            return [("ret", st, U)]
        if len(self.stack) > 40:
            raise Limit("call depth")
        self.cov["functions"].add(fn.key)
        st.frames = (st.frames, st.env, st.live, this_key(this), [])
        st.env = {}
        st.live = ()
        if this is not None:
            st.env["this"] = this
        self.stack.append((fn, line))
        try:
            for i, p in enumerate(fn.params):
                root = (("v", fn.tu, p["d"]),)
                st.clear(root)
                if i < len(args):
                    v = args[i]
                    if p.get("ref"):
                        if not (type(v) is tuple and v[0] == "l"):
                            tmp = (("m", fn.sk, "arg%d" % i),)
                            st.put(tmp, v)
                            v = ("l", tmp)
                        st.put(root, v)
                    elif p.get("rec"):
                        if type(v) is tuple and v[0] == "l":
                            self.copy_rec(st, v[1], root, p["t"])
                        else:
                            st.put(root, v)
                    else:
                        st.put(root, v)
            lin = self.linear(fn)
            outs = self.run_cfg(fn, st) if lin is None else self.run_linear(fn, st, lin)
        finally:
            self.stack.pop()
        if lin is not None:
            fast = []
            for kind, s, v in outs:
                parent, env, live, _, _c = s.frames
                s.env = dict(env)
                s.frames = parent
                s.live = live
                for p in fn.params:
                    s.store.pop(("v", fn.tu, p["d"]), None)
                fast.append((kind, s, v))
            return fast
        res = {}
        owner_vars = [("v", fn.tu, p["d"]) for p in fn.params]
        ov = self.owner()
        for kind, s, v in outs:
            parent, env, live, _, _c = s.frames
            # keep record return values readable
            s.env = dict(env)
            s.frames = parent
            s.live = live
            for r in [r for r in s.store if type(r) is tuple and r[0] == "v" and ov.get(r) == fn.key]:
                # keep storage referenced by the return value
                if type(v) is tuple and v[0] in ("l", "p") and v[1][0] == r:
                    tmp = (("m", fn.sk, "ret"),)
                    s.clear(tmp)
                    for p, x in s.sub((r,)):
                        s.put(tmp + p, x)
                    v = (v[0], tmp + v[1][1:])
                del s.store[r]
            s.env["__r"] = v
            if this is not None:
                s.env["__t"] = this
            self.gc(s)
            s.env.pop("__t", None)
            k = (kind, s.key())
            if k not in res:
                v = s.env.pop("__r")
                res[k] = (kind, s, v)
        return list(res.values())

    def elems(self, fn, b):
        r = b.get("_e")
        if r is None:
            nodes = fn.nodes
            r = b["_e"] = [e for e in b["e"] if not ("s" in e and nodes[e["s"]]["k"] in PURE)]
        return r

    def linear(self, fn):
        """block order of a branch-free function without local objects (None otherwise)."""
        r = self._linear.get(fn.key, 0)
        if r != 0:
            return r
        order = []
        b = fn.entry
        while True:
            blk = fn.blocks[b]
            order.append(blk)
            if b == fn.exit:
                break
            if blk.get("t") is not None or len(blk["s"]) != 1 or blk["s"][0] is None or len(order) > 8:
                order = None
                break
            b = blk["s"][0]
        if order is not None:
            n = 0
            for blk in order:
                for e in blk["e"]:
                    n += 1
                    if "s" not in e or fn.nodes[e["s"]]["k"] == "DeclStmt":
                        order = None
                        break
                if order is None:
                    break
            if n > 40:
                order = None
            for p in fn.params:
                if p.get("rec") and not p.get("ref"):
                    order = None
        self._linear[fn.key] = order
        return order

    def run_linear(self, fn, st, order):
        cur = [st]
        outs = []
        for b in order:
            self.cov["blocks"].add((fn.key, b["id"]))
            pend = []
            for e in self.elems(fn, b):
                nxt = []
                for x in cur:
                    nxt.extend(self.elem(fn, x, e, pend))
                cur = nxt
            for es, et, tr in pend:
                es.env.pop("ret", None)
                outs.append(("exc", es, et))
        for x in cur:
            outs.append(("ret", x, x.env.pop("ret", None)))
        return outs

    def run_cfg(self, fn, st):
        live = self.liveness(fn)
        visited = {}
        outs = []
        work = [(fn.entry, st, None)]
        blocks = fn.blocks
        while work:
            bid, s, exc = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit("analysis budget exceeded (%d block visits)" % self.steps)
            b = blocks[bid]
            # prune dead expression values and variables, then merge equal states
            li, lv = live[bid]
            s.env = {k: v for k, v in s.env.items() if type(k) is str or k in li}
            if fn.npreds.get(bid, 0) > 1 or bid == fn.exit:
                self.gc(s, lv, fn.key)
                k = (s.key(), exc)
                vs = visited.setdefault(bid, set())
                if k in vs:
                    continue
                vs.add(k)
                self.cov["states"] += 1
            self.cov["blocks"].add((fn.key, bid))
            if bid == fn.exit:
                if exc is not None:
                    outs.append(("exc", s, exc))
                else:
                    v = s.env.pop("ret", None)
                    outs.append(("ret", s, v))
                continue
            cur = [s]
            pend = []      # exceptional (state, type, try)
            for e in self.elems(fn, b):
                if not cur:
                    break
                if len(cur) == 1:
                    cur = self.elem(fn, cur[0], e, pend)
                    continue
                nxt = []
                for x in cur:
                    nxt.extend(self.elem(fn, x, e, pend))
                cur = nxt
            for es, et, tr in pend:
                self.raise_to(fn, es, et, tr, work, outs)
            if not cur:
                continue
            t = b.get("t")
            succ = b["s"]
            if t is None or len(succ) == 1:
                for x in cur:
                    for sc in succ:
                        if sc is not None:
                            work.append((sc, x, None))
                continue
            if t["k"] == "SwitchStmt":
                for x in cur:
                    self.switch(fn, x, b, t, work)
                continue
            if t["k"] == "CXXTryStmt" or t["k"] == "Other":
                for x in cur:
                    for sc in succ:
                        if sc is not None:
                            work.append((sc, x.copy(), None))
                continue
            cid = t.get("lc") or t.get("c")
            stale = cid is not None and cid not in self._elem_ids[fn.key]
            for x in cur:
                if stale:
                    x.env.pop(cid, None)    # the value it had the last time round
                if cid is None:
                    # for(;;) without a condition
                    if succ[0] is not None:
                        work.append((succ[0], x, None))
                    continue
                v = self.val(fn, x, cid)
                v = self.rv(x, v, fn.nodes[cid])
                d = self.decide(x, v)
                if d is None:
                    y = x.copy()
                    if succ[0] is not None and self.assume(x, v, True):
                        x.env[cid] = 1
                        work.append((succ[0], x, None))
                    if succ[1] is not None and self.assume(y, v, False):
                        y.env[cid] = 0
                        work.append((succ[1], y, None))
                else:
                    x.env[cid] = int(d)
                    tgt = succ[0] if d else succ[1]
                    if tgt is not None:
                        work.append((tgt, x, None))
        return outs

    def rv(self, st, v, node):
        if type(v) is tuple and v[0] == "l" and not node.get("rec"):
            return self.read(st, v[1], node.get("t", ""))
        return v

    def switch(self, fn, st, b, t, work):
        cid = t.get("c") or t.get("lc")
        if cid not in self._elem_ids[fn.key]:
            st.env.pop(cid, None)
        v = self.rv(st, self.val(fn, st, cid), fn.nodes[cid])
        cases = []
        default = None
        for sc in b["s"]:
            if sc is None:
                continue
            lab = fn.blocks[sc].get("label")
            if lab and lab["k"] == "CaseStmt":
                lo = lab["lo"]
                hi = lab.get("hi", lo)
                cases.append((lo, hi, sc))
            else:
                default = sc
        # several labels may share a block chain; clang gives one block per case
        vals = self.values(st, v)
        if vals is not None and len(vals) == 1:
            x = next(iter(vals))
            for lo, hi, sc in cases:
                if lo <= x <= hi:
                    work.append((sc, st, None))
                    return
            if default is not None:
                work.append((default, st, None))
            return
        rest = st.copy()
        feasible = True
        for lo, hi, sc in cases:
            for k in range(lo, hi + 1):
                y = st.copy()
                if self.assume(y, self.cmp(y, "==", v, k), True):
                    work.append((sc, y, None))
                if feasible:
                    feasible = self.assume(rest, self.cmp(rest, "==", v, k), False)
        if feasible and default is not None:
            work.append((default, rest, None))

    def raise_to(self, fn, st, et, tr, work, outs):
        """exception of type et leaves an element whose innermost try is tr."""
        while True:
            if tr is None:
                for x in self.unwind(fn, st, None):
                    x.env.pop("ret", None)
                    outs.append(("exc", x, et))
                return
            tb = fn.try_blocks.get(tr)
            if tb is None:
                tr = fn.nodes.get(tr, {}).get("try")
                continue
            outl = self.unwind(fn, st, tr)
            handled = False
            for x in outl:
                caught = False
                for sc in fn.blocks[tb]["s"]:
                    if sc is None or sc == fn.exit:
                        continue
                    lab = fn.blocks[sc].get("label") or {}
                    ct = lab.get("ct", "...")
                    m = self.catches(ct, et)
                    if m:
                        y = x.copy()
                        if "d" in lab:
                            y.put((("v", fn.tu, lab["d"]),), ("l", (("o", ("exc",)),)))
                        work.append((sc, y, None))
                        if m == 2:
                            caught = True
                            break
                if not caught:
                    up = fn.nodes.get(tr, {}).get("try")
                    self.raise_to(fn, x, et, up, work, outs)
            return

    def catches(self, ct, et):
        if ct == "...":
            return 2
        if et == "?":
            return 1
        if ct == et or self.P.derives(et, ct):
            return 2
        if ct in ("std::exception", "std::runtime_error") and et.startswith("wsrep::"):
            return 2
        return 0

    def unwind(self, fn, st, tr):
        """destroy automatic objects declared inside try tr (all of the frame if None)."""
        res = [st]
        for (root, cls, dt, vtr) in reversed(st.live):
            if tr is not None and not self.inside(fn, vtr, tr):
                continue
            nxt = []
            for x in res:
                x.live = tuple(l for l in x.live if l[0] != root)
                nxt.extend(self.destroy(x, (root,), cls, dt, 0))
            res = nxt
        return res

    def inside(self, fn, vtr, tr):
        while vtr is not None:
            if vtr == tr:
                return True
            vtr = fn.nodes.get(vtr, {}).get("try")
        return False

    # ---------------------------------------------------------------- elements
    def elem(self, fn, st, e, pend):
        sid = e.get("s")
        if sid is not None:
            n = fn.nodes[sid]
            if n["k"] in PURE:
                return [st]
            self.cur_line = n["l"]
            return self.eval(fn, st, n, pend)
        if "dtorv" in e:
            root = ("v", fn.tu, e["dtorv"])
            self.cur_line = e.get("l", 0)
            st.live = tuple(l for l in st.live if l[0] != root)
            if (st.get((root,)) is not None and type(st.get((root,))) is tuple
                    and st.get((root,))[0] == "l"):
                return [st]      # reference-extended temporaries: no dtor effects tracked
            return self.destroy(st, (root,), e.get("cls", ""), e.get("dtor"), e.get("l", 0))
        if "initf" in e:
            return self.init_field(fn, st, e)
        if "initb" in e or "initd" in e:
            v = self.val(fn, st, e["init"])
            if type(v) is tuple and v[0] == "l" and "this" in st.env:
                dst = self.deref(st, st.env["this"])
                for p, x in st.sub(v[1]):
                    st.put(dst + p, x)
            return [st]
        if "dtorf" in e and "this" in st.env:
            loc = self.deref(st, st.env["this"]) + (e["dtorf"],)
            return self.destroy(st, loc, e.get("cls", ""), e.get("dtor"), 0)
        return [st]

    def init_field(self, fn, st, e):
        loc = self.deref(st, st.env["this"]) + (e["initf"],)
        n = fn.nodes.get(e["init"])
        v = self.val(fn, st, e["init"])
        if e.get("ref"):
            st.put(loc, v if type(v) is tuple and v[0] == "l" else ("l", self.deref(st, v, n)))
            return [st]
        if type(v) is tuple and v[0] == "l":
            if n and n.get("rec"):
                self.copy_rec(st, v[1], loc, n["t"])
                if e["ft"] in self.OPAQUE and st.get(loc) is None:
                    st.put(loc, U)
                return [st]
            v = self.read(st, v[1], n.get("t", ""))
        if n and n["k"] == "ImplicitValueInitExpr":
            v = 0
            if self.is_repo_rec(e["ft"]):
                return [st]
        st.put(loc, v)
        return [st]

    def destroy(self, st, loc, cls, dtor, line):
        if cls.startswith("std::unique_lock") or cls.startswith("std::lock_guard"):
            m = st.get(loc + ("#m",))
            o = st.get(loc + ("#o",))
            if m is not None and o is not None:
                if self.may(st, o, 1):
                    if not self.must(st, o, 1) and o != U:
                        self.assume(st, o, True)
                    self.unlock(st, m[1])
            st.clear(loc)
            return [st]
        f = self.P.fns.get(dtor) if dtor else None
        if f is not None and not any(cls.startswith(c) for c in self.skip_classes):
            res = []
            for kind, s, v in self.run(f, st, ("p", loc), (), line):
                s.clear(loc)
                res.append(s)
            return res
        if cls.startswith("std::unique_ptr"):
            st.clear(loc)
        return [st]

    def val(self, fn, st, nid):
        """value of an already evaluated (or side-effect free) expression."""
        v = st.env.get(nid)
        if v is not None:
            return v
        n = fn.nodes.get(nid)
        if n is None:
            return U
        r = self.eval(fn, st, n, [], store=False)
        if len(r) != 1:
            return U
        v = r[0].env.pop("__v", U)
        return v

    # ---------------------------------------------------------------- expressions
    def eval(self, fn, st, n, pend, store=True):
        """evaluate node n in st; returns list of states with env[n.i] set."""
        k = n["k"]
        if "cv" in n and k not in ("DeclStmt",):
            v = n["cv"]
            return self._fin(st, n, v, store)
        h = getattr(self, "x_" + k, None)
        if h is None:
            # unknown expression: evaluate to unknown
            return self._fin(st, n, U, store)
        r = h(fn, st, n, pend)
        if type(r) is list:
            out = []
            for s, v in r:
                out.extend(self._fin(s, n, v, store))
            return out
        return self._fin(st, n, r, store)

    def _fin(self, st, n, v, store):
        if store:
            st.env[n["i"]] = v
        else:
            st.env["__v"] = v
        return [st]

    def x_CXXThisExpr(self, fn, st, n, pend):
        return st.env.get("this", U)

    def x_DeclRefExpr(self, fn, st, n, pend):
        dk = n.get("dk")
        if dk in ("local", "parm"):
            root = (("v", fn.tu, n["d"]),)
            if n.get("ref"):
                v = st.get(root)
                if v is None:
                    v = self.read(st, root, n["t"] + " *")
                if type(v) is tuple and v[0] == "l":
                    return v
                return ("l", self.deref(st, v, n))
            return ("l", root)
        if dk in ("global", "slocal"):
            if n.get("ref"):
                return ("l", (("g", "qn", n["qn"], "ref"),))
            return ("l", (("g", fn.tu, n["d"]),)) if (fn.tu, n["d"]) in self.P.globals else \
                ("l", (("g", "qn", n["qn"]),))
        if dk == "fn":
            return ("fn", n["callee"])
        return U

    def x_MemberExpr(self, fn, st, n, pend):
        if not n.get("field"):
            if n.get("dk") == "global":
                return ("l", (("g", "qn", n["qn"]),))
            return U
        base = self.val(fn, st, n["c"][0])
        loc = self.deref(st, base, n) if n.get("arrow") else self.loc_of(st, base, n)
        loc = loc + (n["name"],)
        if n.get("ref"):
            v = st.get(loc)
            if v is None:
                v = self.read(st, loc, n["t"] + " *")
                if is_sym(v):
                    self.assume(st, v, True)
            if type(v) is tuple and v[0] == "l":
                return v
            return ("l", self.deref(st, v, n))
        return ("l", loc)

    def x_ImplicitCastExpr(self, fn, st, n, pend):
        ck = n.get("ck")
        c = self.val(fn, st, n["c"][0])
        if ck == "LValueToRValue":
            if type(c) is tuple and c[0] == "l":
                if self.untracked(c[1]):
                    return self.chained(fn, st, n["c"][0], c[1])
                return self.read(st, c[1], n["t"])
            return c
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            c = self.norm(st, c)
            if type(c) is int:
                return int(c != 0)
            if type(c) is tuple and c[0] in ("p",):
                return 1
            if is_sym(c):
                return self.cmp(st, "!=", c, 0)
            return c
        if ck == "ArrayToPointerDecay":
            if type(c) is tuple and c[0] == "l":
                return ("p", c[1])
            return c
        if ck == "NullToPointer":
            return 0
        if ck == "ToVoid":
            return U
        return c

    x_CStyleCastExpr = x_ImplicitCastExpr
    x_CXXStaticCastExpr = x_ImplicitCastExpr
    x_CXXFunctionalCastExpr = x_ImplicitCastExpr
    x_CXXConstCastExpr = x_ImplicitCastExpr
    x_CXXReinterpretCastExpr = x_ImplicitCastExpr
    x_CXXDynamicCastExpr = x_ImplicitCastExpr

    def x_pass(self, fn, st, n, pend):
        return self.val(fn, st, n["c"][0]) if n.get("c") else U

    x_ParenExpr = x_pass
    x_ExprWithCleanups = x_pass
    x_CXXBindTemporaryExpr = x_pass
    x_ConstantExpr = x_pass
    x_CXXDefaultArgExpr = x_pass
    x_CXXDefaultInitExpr = x_pass
    x_SubstNonTypeTemplateParmExpr = x_pass
    x_CXXStdInitializerListExpr = x_pass

    def x_MaterializeTemporaryExpr(self, fn, st, n, pend):
        v = self.val(fn, st, n["c"][0])
        if type(v) is tuple and v[0] == "l":
            return v
        tmp = (("m", fn.sk, n["i"]),)
        st.clear(tmp)
        st.put(tmp, v)
        return ("l", tmp)

    def x_UnaryOperator(self, fn, st, n, pend):
        op = n["op"]
        c = self.val(fn, st, n["c"][0])
        if op == "*":
            return ("l", self.deref(st, c, n))
        if op == "&":
            if type(c) is tuple and c[0] == "l":
                return ("p", c[1])
            return c
        if op == "!":
            return self.lnot(self.norm(st, c))
        if op in ("++", "--"):
            loc = self.loc_of(st, c, n)
            old = self.norm(st, self.read(st, loc, n["t"]))
            d = 1 if op == "++" else -1
            if type(old) is int:
                new = old + d
            elif is_sym(old):
                new = ("s", old[1], old[2] + d)
            else:
                new = U
            self.write(st, loc, new, n)
            if n.get("post"):
                return old
            return c
        c = self.norm(st, c)
        if type(c) is int:
            return {"-": -c, "~": ~c, "+": c}.get(op, U)
        return U

    def x_BinaryOperator(self, fn, st, n, pend):
        op = n["op"]
        l, r = n["c"][0], n["c"][1]
        if op == "=":
            dst = self.val(fn, st, l)
            v = self.val(fn, st, r)
            loc = self.loc_of(st, dst, n)
            if type(v) is tuple and v[0] == "l":
                rn = fn.nodes.get(r, {})
                if rn.get("rec"):
                    self.copy_rec(st, v[1], loc, rn["t"], n)
                    return dst
                v = self.chained(fn, st, r, v[1])
            self.write(st, loc, self.norm(st, v), n)
            return dst
        if op == ",":
            return self.val(fn, st, r)
        if op in ("&&", "||"):
            lv = st.env.get(l)
            if lv is None:
                lv = self.val(fn, st, l)
            d = self.decide(st, lv)
            if d is None:
                return U
            if op == "&&":
                return 0 if not d else self.boolv(st, self.val(fn, st, r))
            return 1 if d else self.boolv(st, self.val(fn, st, r))
        a = self.rv(st, self.val(fn, st, l), fn.nodes.get(l, {}))
        b = self.rv(st, self.val(fn, st, r), fn.nodes.get(r, {}))
        return self.arith(st, op, a, b)

    def chained(self, fn, st, r, loc):
        """value of an lvalue operand; a = b = x passes on x also when b is not tracked"""
        rn = fn.nodes.get(r, {})
        n = rn
        while n.get("k") in ("ParenExpr", "ImplicitCastExpr") and n.get("c"):
            n = fn.nodes.get(n["c"][0], {})
        if n.get("k") == "BinaryOperator" and n.get("op") == "=" and self.untracked(loc):
            v = self.val(fn, st, n["c"][1])
            if type(v) is tuple and v[0] == "l":
                return self.chained(fn, st, n["c"][1], v[1])
            return v
        return self.read(st, loc, rn.get("t", ""))

    def untracked(self, loc):
        return self.keep is not None and loc[0] in self.keep_roots and loc not in self.keep

    def boolv(self, st, v):
        v = self.norm(st, v)
        if type(v) is int:
            return int(v != 0)
        return v

    def arith(self, st, op, a, b):
        a = self.norm(st, a)
        b = self.norm(st, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(st, op, a, b)
        if a == U or b == U:
            return U
        if type(a) is int and type(b) is int:
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "/": lambda: int(a / b), "%": lambda: a % b, "&": lambda: a & b,
                        "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b,
                        ">>": lambda: a >> b}[op]()
            except Exception:
                return U
        if op == "+" and is_sym(a) and type(b) is int:
            return ("s", a[1], a[2] + b)
        if op == "+" and is_sym(b) and type(a) is int:
            return ("s", b[1], b[2] + a)
        if op == "-" and is_sym(a) and type(b) is int:
            return ("s", a[1], a[2] - b)
        if op == "-" and is_sym(a) and is_sym(b) and a[1] == b[1]:
            return a[2] - b[2]
        if op == "&":
            if type(a) is int:
                a, b = b, a
            if type(b) is int and b == 0:
                return 0
            if is_sym(a) and type(b) is int:
                if b > 0 and b & (b - 1) == 0:
                    return self.atom(st, ("&", a, b), ("S", frozenset((0, b))))
                return self.atom(st, ("&", a, b), ("I", 0 if b > 0 else INF, b if b > 0 else INF, EMPTYFS))
        if op == "|":
            if type(a) is int:
                a, b = b, a
            if is_sym(a) and type(b) is int:
                if b == 0:
                    return a
                if b > 0:
                    return self.atom(st, ("|", a, b), ("I", INF, INF, frozenset((0,))))
        if is_sym(a) or is_sym(b):
            if (is_sym(a) or type(a) is int) and (is_sym(b) or type(b) is int):
                return self.atom(st, ("op" + op, a, b), ("I", INF, INF, EMPTYFS))
        return U

    def x_CompoundAssignOperator(self, fn, st, n, pend):
        op = n["op"][:-1]
        dst = self.val(fn, st, n["c"][0])
        loc = self.loc_of(st, dst, n)
        a = self.read(st, loc, n["t"])
        b = self.rv(st, self.val(fn, st, n["c"][1]), fn.nodes.get(n["c"][1], {}))
        self.write(st, loc, self.arith(st, op, a, b), n)
        return dst

    def x_ConditionalOperator(self, fn, st, n, pend):
        c = st.env.get(n["c"][0])
        if c is None:
            c = self.rv(st, self.val(fn, st, n["c"][0]), fn.nodes.get(n["c"][0], {}))
        d = self.decide(st, c) if c is not None else None
        # the branch decides which operand was evaluated on this path
        if d is True:
            return self.val(fn, st, n["c"][1])
        if d is False:
            return self.val(fn, st, n["c"][2])
        a = st.env.get(n["c"][1])
        b = st.env.get(n["c"][2])
        if a is not None and b is None:
            return a
        if b is not None and a is None:
            return b
        return U

    def x_ArraySubscriptExpr(self, fn, st, n, pend):
        base = self.val(fn, st, n["c"][0])
        idx = self.norm(st, self.rv(st, self.val(fn, st, n["c"][1]), fn.nodes.get(n["c"][1], {})))
        loc = self.deref(st, base, n)
        if type(idx) is int:
            return ("l", loc + (("ix", idx),))
        vals = self.values(st, idx)
        if vals is not None and len(vals) <= 32:
            out = []
            for v in sorted(vals):
                s = st.copy()
                if self.assume(s, self.cmp(s, "==", idx, v), True):
                    out.append((s, ("l", loc + (("ix", v),))))
            return out
        return ("l", loc + (("ix", "?"),))

    def x_DeclStmt(self, fn, st, n, pend):
        for v in n["vars"]:
            root = (("v", fn.tu, v["d"]),)
            if v.get("static"):
                continue
            st.clear(root)
            init = v.get("init")
            if init is None:
                if v.get("rec"):
                    pass
                else:
                    st.put(root, self.sym(st, ("u", fn.sk, v["d"]), dom(self.P, v["t"])))
                continue
            val = self.val(fn, st, init)
            inode = fn.nodes.get(init, {})
            if v.get("ref"):
                if not (type(val) is tuple and val[0] == "l"):
                    tmp = (("m", fn.sk, ("var", v["d"])),)
                    st.put(tmp, val)
                    val = ("l", tmp)
                st.put(root, val)
                continue
            if type(val) is tuple and val[0] == "l":
                if v.get("rec"):
                    t = inode.get("t", v["t"])
                    src = val[1]
                    if t.startswith("std::unique_lock") or t.startswith("std::lock_guard"):
                        for p, x in st.sub(src):
                            st.put(root + p, x)
                    elif type(src[0]) is tuple and src[0][0] == "m" and len(src) == 1 and \
                            self.is_repo_rec(v["t"]):
                        for p, x in st.sub(src):
                            st.put(root + p, x)
                    else:
                        self.copy_rec(st, src, root, v["t"])
                    dt = self.dtor_of(v["t"])
                    if dt is not None:
                        st.live = st.live + ((root[0], v["t"], dt, n.get("try")),)
                    continue
                val = self.read(st, val[1], v["t"])
            st.put(root, self.norm(st, val))
        return U

    def dtor_of(self, t):
        if t.startswith("std::unique_lock") or t.startswith("std::lock_guard"):
            return "std"
        r = self.P.records.get(t)
        if r is None or not r["repo"]:
            return None
        base = t.split("<")[0]
        for f in self.P.fns.values():
            pass
        return self._dtors().get(t)

    def _dtors(self):
        d = getattr(self, "_dt", None)
        if d is None:
            d = {}
            for f in self.P.fns.values():
                if f.raw.get("isdtor"):
                    d[f.cls] = f.key
            self._dt = d
        return d

    def x_ReturnStmt(self, fn, st, n, pend):
        if n.get("c"):
            v = self.val(fn, st, n["c"][0])
            rn = fn.nodes.get(n["c"][0], {})
            if type(v) is tuple and v[0] == "l" and not fn.raw.get("retref") and not rn.get("rec"):
                v = self.read(st, v[1], rn.get("t", ""))
            if type(v) is tuple and v[0] == "l" and rn.get("rec") and not fn.raw.get("retref"):
                # copy out, so that later destruction does not matter
                tmp = (("m", fn.sk, "retv"),)
                if v[1] != tmp:
                    if not (type(v[1][0]) is tuple and v[1][0][0] == "m"):
                        self.copy_rec(st, v[1], tmp, rn["t"])
                        v = ("l", tmp)
            st.env["ret"] = self.norm(st, v) if not (type(v) is tuple and v[0] == "l") else v
        else:
            st.env["ret"] = U
        return U

    def x_CXXThrowExpr(self, fn, st, n, pend):
        et = n.get("tt") or "?"
        st.log("%s:%d throws %s" % (fn.short(), n["l"], et))
        self.emit(st, Ev("throw", et, None, (), None, n, self))
        pend.append((st, et, n.get("try")))
        return []

    def x_LambdaExpr(self, fn, st, n, pend):
        tmp = (("m", fn.sk, n["i"]),)
        st.clear(tmp)
        st.put(tmp + ("#fn",), ("fn", n["callee"]))
        if "this" in st.env:
            st.put(tmp + ("#this",), st.env["this"])
        return ("l", tmp)

    def x_CXXNewExpr(self, fn, st, n, pend):
        v = self.sym(st, ("new", fn.sk, n["i"]), ("I", 1, INF, EMPTYFS))
        if n.get("c"):
            c = self.val(fn, st, n["c"][0])
            if type(c) is tuple and c[0] == "l":
                for p, x in st.sub(c[1]):
                    st.put((("o", v[1]),) + p, x)
        return v

    def x_InitListExpr(self, fn, st, n, pend):
        if n.get("rec"):
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            r = self.P.records.get(n["t"])
            if r and r["repo"]:
                for f, c in zip(r["fields"], n.get("c", ())):
                    v = self.val(fn, st, c)
                    if type(v) is tuple and v[0] == "l" and f.get("rec"):
                        self.copy_rec(st, v[1], tmp + (f["name"],), f["t"])
                    else:
                        st.put(tmp + (f["name"],), self.rv(st, v, fn.nodes.get(c, {})))
            return ("l", tmp)
        if n.get("c") and len(n["c"]) == 1:
            return self.val(fn, st, n["c"][0])
        return U

    def x_CXXScalarValueInitExpr(self, fn, st, n, pend):
        return 0

    def x_ImplicitValueInitExpr(self, fn, st, n, pend):
        return 0

    def x_StringLiteral(self, fn, st, n, pend):
        return ("p", (("str", n.get("str", "")),))

    # ---------------------------------------------------------------- calls
    def x_CXXConstructExpr(self, fn, st, n, pend):
        cls = n.get("cls", "")
        tmp = (("m", fn.sk, n["i"]),)
        args = [self.val(fn, st, c) for c in n.get("c", ())]
        if any(cls.startswith(c) for c in self.skip_classes):
            return ("l", tmp)
        if n.get("elide") and args and type(args[0]) is tuple and args[0][0] == "l":
            return args[0]
        st.clear(tmp)
        if cls.startswith("std::unique_lock") or cls.startswith("std::lock_guard"):
            if n.get("move") or n.get("copy"):
                src = args[0][1]
                for p, x in st.sub(src):
                    st.put(tmp + p, x)
                if type(src[0]) is tuple:
                    st.put(src + ("#o",), 0)
                return ("l", tmp)
            if not args:
                st.put(tmp + ("#o",), 0)
                return ("l", tmp)
            m = args[0]
            mloc = m[1] if type(m) is tuple and m[0] == "l" else self.deref(st, m, n)
            st.put(tmp + ("#m",), ("p", mloc))
            if len(args) > 1:
                t2 = fn.nodes.get(n["c"][1], {}).get("t", "")
                if "defer" in t2:
                    st.put(tmp + ("#o",), 0)
                    return ("l", tmp)
                if "adopt" in t2:
                    st.put(tmp + ("#o",), 1)
                    return ("l", tmp)
            st.put(tmp + ("#o",), 1)
            st.env["__c"] = ("l", tmp)      # keeps the lock alive while others run
            out = []
            for s in self.lock(st, mloc):
                s.env.pop("__c", None)
                out.append((s, ("l", tmp)))
            return out
        if (n.get("copy") or n.get("move")) and args:
            a = args[0]
            f = self.P.fns.get(n.get("callee"))
            if type(a) is tuple and a[0] == "l":
                if f is None or n.get("defaulted") or cls in self.OPAQUE:
                    self.copy_rec(st, a[1], tmp, n["t"])
                    return ("l", tmp)
            if f is None:
                st.put(tmp, U)
                return ("l", tmp)
        if cls in self.OPAQUE:
            if not args:
                st.put(tmp, ("k", "undef"))
            else:
                key = ("ctor", cls) + tuple(self.cell(st, a) for a in args)
                st.put(tmp, self.atom(st, key, ("I", INF, INF, EMPTYFS)) if U not in key else U)
            return ("l", tmp)
        f = self.P.fns.get(n.get("callee"))
        if f is not None:
            if n.get("defaulted") and not args and not f.blocks:
                return ("l", tmp)
            out = []
            for kind, s, v in self.run(f, st, ("p", tmp), args, n["l"]):
                if kind == "exc":
                    pend.append((s, v, n.get("try")))
                else:
                    out.append((s, ("l", tmp)))
            return out
        # library type
        if not args or n.get("dflt"):
            r = self.P.records.get(cls)
            if r is not None and r["repo"]:
                for p, tt in self.leaves(cls):
                    if tt.endswith("*") or tt in ("bool", "int", "long", "unsigned long"):
                        st.put(tmp + p, 0) if False else None
                return ("l", tmp)
            st.put(tmp, EMPTY_CONTENT)
            return ("l", tmp)
        if cls.startswith("std::unique_ptr") or cls.startswith("std::shared_ptr"):
            st.put(tmp, self.rv(st, args[0], fn.nodes.get(n["c"][0], {})))
            return ("l", tmp)
        if len(args) == 1 and type(args[0]) is tuple and args[0][0] == "l" and \
                (cls.startswith("std::pair") or "_iterator" in cls):
            # conversion between element or iterator types
            items = st.sub(args[0][1])
            if items:
                st.clear(tmp)
                for p, x in items:
                    st.put(tmp + p, x)
                return ("l", tmp)
        if cls.startswith("std::pair") or cls.startswith("std::tuple"):
            for i, a in enumerate(args[:2]):
                nm = ("first", "second")[i]
                if type(a) is tuple and a[0] == "l":
                    self.copy_rec(st, a[1], tmp + (nm,), fn.nodes.get(n["c"][i], {}).get("t", ""))
                else:
                    st.put(tmp + (nm,), a)
            return ("l", tmp)
        st.put(tmp, self.sym(st, ("c", fn.sk, n["i"]), ("I", INF, INF, EMPTYFS)))
        return ("l", tmp)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def cell(self, st, a):
        """value identity of an argument for uninterpreted functions."""
        if type(a) is tuple and a[0] == "l":
            v = st.get(a[1])
            if v is None:
                sub = st.sub(a[1])
                if sub:
                    return ("rec",) + tuple(sorted(((p, x) for p, x in sub), key=repr))
                v = self.read(st, a[1], "")
            return v
        return self.norm(st, a)

    def x_CallExpr(self, fn, st, n, pend):
        return self.call(fn, st, n, pend)

    x_CXXMemberCallExpr = x_CallExpr
    x_CXXOperatorCallExpr = x_CallExpr

    def call(self, fn, st, n, pend):
        self.cov["calls"] += 1
        callee = n.get("callee")
        cname = n.get("cname", "")
        obj = self.val(fn, st, n["obj"]) if n.get("obj") else None
        args = [self.val(fn, st, c) for c in n.get("c", ())]
        if callee is None:
            # call through a pointer / std::function
            fp = self.val(fn, st, n["fptr"]) if n.get("fptr") else U
            if type(fp) is tuple and fp[0] == "fn":
                callee = fp[1]
            else:
                return self.opaque(fn, st, n, obj, args, pend)
        if cname in self.unknown_results:
            return 0
        if n.get("op") == "<<" and "ostream" in n.get("t", "") and args:
            return obj if obj is not None else args[0]
        base = cname.rsplit("::", 1)[-1]
        if base in ("to_string", "to_c_string") and n.get("crepo"):
            return U
        if n.get("t") == "void" and n.get("const") and n.get("crepo") and self.log_only(callee):
            return U
        m = self.models.get(cname)
        if m is not None:
            c = Call(fn, n, obj, args, cname)
            r = m(self, st, c)
            if r is not None:
                out = []
                for x in r:
                    if len(x) == 3 and x[0] == "exc":
                        pend.append((x[1], x[2], n.get("try")))
                    else:
                        out.append(x)
                return out
        cls = n.get("cls", "")
        if any(cls == c or cls.startswith(c + "_") and cls.startswith("wsrep::log") for c in self.skip_classes) \
                or cls in ("wsrep::log_debug", "wsrep::log_info", "wsrep::log_warning", "wsrep::log_error"):
            return obj if obj is not None else U
        # lambda call
        if n.get("op") == "()" and obj is not None and "(lambda" in cls:
            f = self.P.fns.get(callee)
            if f is not None:
                oloc = self.loc_of(st, obj, n)
                this = st.get(oloc + ("#this",))
                return self.inline(fn, st, n, f, this, args, pend)
        f = self.P.fns.get(callee)
        virt = n.get("virt") and not n.get("nonvirt")
        if f is not None and callee not in self.no_inline and \
                (not virt or cls in self.inline_virtual) and cls not in self.OPAQUE:
            this = None
            if obj is not None and not n.get("static"):
                if n.get("objptr"):
                    this = obj if type(obj) is tuple and obj[0] in ("p",) else ("p", self.deref(st, obj, n))
                else:
                    this = ("p", self.loc_of(st, obj, n))
            return self.inline(fn, st, n, f, this, args, pend)
        return self.opaque(fn, st, n, obj, args, pend)

    def log_only(self, key, depth=0):
        """const void member function without interface calls, lock operations or throws."""
        c = self._logonly.get(key)
        if c is not None:
            return c
        f = self.P.fns.get(key)
        if f is None or depth > 5:
            return False
        self._logonly[key] = True
        ok = True
        for n in f.nodes.values():
            if n["k"] == "CXXThrowExpr":
                ok = False
            cn = n.get("cname")
            if not cn or not n.get("crepo"):
                if cn and n.get("cls", "").startswith("std::unique_lock"):
                    ok = False
                continue
            if n.get("op") == "<<" or cn.startswith("wsrep::log") or cn.rsplit("::", 1)[-1] in ("to_string", "to_c_string"):
                continue
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            if n.get("virt") and not n.get("const"):
                ok = False
            g = self.P.fns.get(n.get("callee"))
            if g is not None and not n.get("const") and n.get("t") == "void":
                ok = False
        self._logonly[key] = ok
        return ok

    def inline(self, fn, st, n, f, this, args, pend):
        args = [self.arg(st, a, p) for a, p in zip(args, f.params)]
        out = []
        for kind, s, v in self.run(f, st, this, args, n["l"]):
            self.cur_line = n["l"]
            if kind == "exc":
                pend.append((s, v, n.get("try")))
                continue
            if v is None:
                v = U
            elif type(v) is tuple and v[0] == "l" and n.get("rec") and not n.get("lv") and \
                    type(v[1][0]) is tuple and v[1][0][0] == "m":
                # a temporary of the callee: one per call site
                src = v[1]
                tmp = (("m", fn.sk, n["i"]),)
                if src != tmp:
                    items = s.sub(src)
                    s.clear(tmp)
                    for p, x in items:
                        s.put(tmp + p, x)
                    if len(src) == 1:
                        s.store.pop(src[0], None)
                    v = ("l", tmp)
            out.append((s, v))
        if "ret" in self.by_event:
            for s, v in out:
                self.emit(s, Ev("ret", f.name, this, args, v, n, self))
        return out

    def arg(self, st, a, p):
        if p.get("ref") or p.get("rec"):
            return a
        if type(a) is tuple and a[0] == "l":
            return self.read(st, a[1], p["t"])
        return self.norm(st, a)

    def opaque(self, fn, st, n, obj, args, pend):
        cname = n.get("cname", "")
        cls = n.get("cls", "")
        if cname.startswith("std::") or cls.startswith("std::") or cls.startswith("__gnu_cxx") \
                or cname.startswith("__gnu_cxx"):
            r = self.stdcall(fn, st, n, obj, args)
            if r is not None:
                return r
        if cls in self.OPAQUE or cname.startswith(tuple(o + "::" for o in self.OPAQUE)):
            r = self.opaque_cls_call(fn, st, n, obj, args)
            if r is not None:
                return r
        if cname == "wsrep::mutex::lock" and obj is not None:
            return [(s, U) for s in self.lock(st, self.objloc(st, n, obj))]
        if cname == "wsrep::mutex::unlock" and obj is not None:
            self.unlock(st, self.objloc(st, n, obj))
            return U
        if cname == "__assert_fail":
            self.emit(st, Ev("assert", cname, None, args, None, n, self))
            return []
        if n.get("noreturn"):
            self.emit(st, Ev("abort", cname, None, args, None, n, self))
            return []
        iface = n.get("virt") or (n.get("crepo") and not n.get("const"))
        oloc = self.objloc(st, n, obj) if obj is not None else None
        # out parameters
        pm = n.get("pmodes", [])
        for i, a in enumerate(args):
            md = pm[i] if i < len(pm) else "v"
            if md in ("r", "p") and type(a) is tuple and a[0] in ("l", "p"):
                loc = a[1]
                r = loc[0]
                if type(r) is str and len(loc) == 1:
                    continue     # named service objects
                if r and type(r) is tuple and r[0] in ("o", "str", "g"):
                    continue
                t = fn.nodes.get(n["c"][i], {}).get("t", "") if i < len(n.get("c", ())) else ""
                if t.startswith("std::unique_lock"):
                    continue
                if t.endswith("*"):
                    t = t[:-1].strip()
                    if len(loc) == 1 and type(r) is tuple and r[0] == "m":
                        continue
                self.havoc(st, loc, t, (fn.sk, n["i"]))
        outs = self.result(fn, st, n, oloc, args, iface)
        if iface:
            for s, v in outs:
                s.log("%s:%d %s() -> %s" % (fn.short(), n["l"], cname.replace("wsrep::", ""), show(v)))
                self.emit(s, Ev("call", cname, oloc, tuple(args), v, n, self))
        return outs

    def objloc(self, st, n, obj):
        if n.get("objptr"):
            return self.deref(st, obj, n)
        return self.loc_of(st, obj, n)

    def result(self, fn, st, n, oloc, args, iface):
        t = n.get("t", "")
        if t == "void":
            return [(st, U)]
        site = ("r", fn.sk, n["i"])
        if n.get("rec") and not n.get("lv"):
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            for p, tt in self.leaves(t):
                st.put(tmp + p, self.sym(st, site + (p,), dom(self.P, tt)))
            return [(st, ("l", tmp))]
        if n.get("lv"):
            # reference result: memoised per object
            if oloc is not None:
                root = ("ro", n.get("cname"), oloc)
                v = st.get(("#refs", root))
                if v is None:
                    v = self.sym(st, ("ref", n.get("cname"), oloc), ("I", 1, INF, EMPTYFS))
                    st.put(("#refs", root), v)
                return [(st, ("l", (("o", v[1]),)))]
            v = self.sym(st, site, ("I", 1, INF, EMPTYFS))
            return [(st, ("l", (("o", v[1]),)))]
        d = dom(self.P, t)
        if not iface:
            return [(st, self.sym(st, site, d))]
        if d == ("I", INF, INF, EMPTYFS) or d[0] == "S" and 0 in d[1] or t.endswith("*"):
            s0 = st
            s1 = st.copy()
            out = []
            c1 = c_refine(d, "!=", 0)
            if t.endswith("*"):
                v1 = self.sym(s1, site, ("I", 1, INF, EMPTYFS))
            else:
                v1 = self.sym(s1, site, c1)
                v1 = self.norm(s1, v1)
            out.append((s1, v1))
            out.append((s0, 0))
            return out
        return [(st, self.sym(st, site, d))]

    # ---------------------------------------------------------------- locks
    def lock(self, st, m):
        held = st.mon.get("#held", EMPTYFS)
        self.emit(st, Ev("lock", "lock", m, (), m in held, None, self))
        st.mon["#held"] = held | frozenset((m,))
        if self.on_acquire is not None:
            return self.on_acquire(self, st, m)
        return [st]

    def unlock(self, st, m):
        held = st.mon.get("#held", EMPTYFS)
        self.emit(st, Ev("unlock", "unlock", m, (), m in held, None, self))
        st.mon["#held"] = held - frozenset((m,))

    def held(self, st, m):
        return m in st.mon.get("#held", EMPTYFS)

    # ---------------------------------------------------------------- std models
    def opaque_cls_call(self, fn, st, n, obj, args):
        cname = n.get("cname", "")
        meth = n.get("meth", "") or cname.split("::")[-1]
        if meth == "undefined":
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            st.put(tmp, ("k", "undef"))
            return [(st, ("l", tmp))]
        if meth == "is_undefined" and obj is not None:
            return self.veq(st, self.cell(st, obj if not n.get("objptr") else ("l", self.deref(st, obj))),
                            ("k", "undef"))
        if n.get("op") in ("==", "!=") and obj is not None and args:
            r = self.veq(st, self.cell(st, obj), self.cell(st, args[0]))
            return self.lnot(r) if n["op"] == "!=" else r
        if n.get("assign") or n.get("op") == "=":
            loc = self.loc_of(st, obj, n)
            st.clear(loc)
            self.write(st, loc, self.cell(st, args[0]), n)
            return obj
        return None

    def veq(self, st, a, b):
        if a == U or b == U:
            return U
        if a == b:
            return 1
        if repr(a) > repr(b):
            a, b = b, a
        return self.atom(st, ("a==", a, b), ("S", frozenset((0, 1))))

    SIZE_INC = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"}
    MUT = {"erase", "pop_back", "pop_front", "resize", "assign", "swap", "append", "operator++",
           "operator--", "operator+=", "operator-=", "reset", "release", "splice", "reserve"}

    std_hook = None      # (fn, st, n, obj, args) -> None: not handled here

    def stdcall(self, fn, st, n, obj, args):
        if self.std_hook is not None:
            r = self.std_hook(fn, st, n, obj, args)
            if r is not None:
                return r
        cls = n.get("cls", "")
        meth = n.get("meth", "")
        cname = n.get("cname", "")
        op = n.get("op")
        base = cname.split("::")[-1]
        if cls.startswith("std::unique_lock") or cls.startswith("std::lock_guard"):
            loc = self.objloc(st, n, obj)
            m = st.get(loc + ("#m",))
            if m is None:
                self.cov.setdefault("unknown_lock", set()).add(self.where())
                m = ("p", loc + ("#mutex",))
                st.put(loc + ("#m",), m)
            o = st.get(loc + ("#o",))
            if meth == "lock":
                if o is not None and self.must(st, o, 1):
                    self.emit(st, Ev("relock", "relock", m[1], (), None, n, self))
                st.put(loc + ("#o",), 1)
                return [(s, U) for s in self.lock(st, m[1])]
            if meth == "unlock":
                if o is not None and self.must(st, o, 0):
                    self.emit(st, Ev("reunlock", "reunlock", m[1], (), None, n, self))
                st.put(loc + ("#o",), 0)
                self.unlock(st, m[1])
                return U
            if meth in ("owns_lock", "operator bool"):
                return o if o is not None else U
            if meth == "mutex":
                return m
            if meth == "try_lock":
                s1 = st.copy()
                s1.put(loc + ("#o",), 1)
                out = [(s, 1) for s in self.lock(s1, m[1])]
                out.append((st, 0))
                return out
            if meth == "release":
                st.put(loc + ("#o",), 0)
                return m
            return U
        if base in ("move", "forward", "ref", "cref", "addressof") and args:
            return args[0]
        if cls.startswith("std::unique_ptr") or cls.startswith("std::shared_ptr") or \
                cls.startswith("std::__shared_ptr"):
            loc = self.objloc(st, n, obj)
            pv = self.read(st, loc, "void *")
            if op in ("*",):
                return ("l", self.deref(st, pv, n))
            if op == "->" or meth == "get":
                return pv
            if meth == "operator bool":
                return self.cmp(st, "!=", pv, 0)
            if meth == "reset":
                self.write(st, loc, self.rv(st, args[0], {}) if args else 0, n)
                return U
            if meth == "release":
                st.put(loc, 0)
                return pv
            if op == "=":
                v = self.cell(st, args[0]) if args else U
                self.write(st, loc, v, n)
                return obj
            return U
        if obj is not None:
            loc = self.objloc(st, n, obj)
            if cls.startswith("std::pair") and op == "=":
                if type(args[0]) is tuple and args[0][0] == "l":
                    items = st.sub(args[0][1])
                    st.clear(loc)
                    for p, x in items:
                        st.put(loc + p, x)
                return obj
            if op == "=" or meth == "operator=":
                v = self.cell(st, args[0]) if args else U
                st.clear(loc)
                self.write(st, loc, v if not (type(v) is tuple and v and v[0] == "rec") else U, n)
                return obj
            if meth in ("empty", "size", "length"):
                c = self.read(st, loc, n["t"] if False else "")
                if c == EMPTY_CONTENT:
                    return 1 if meth == "empty" else 0
                if c == U:
                    return U
                sz = self.atom(st, ("size", c), ("I", 0, INF, EMPTYFS))
                if meth == "empty":
                    return self.cmp(st, "==", sz, 0)
                return sz
            if meth == "clear":
                self.write(st, loc, EMPTY_CONTENT, n)
                self.emit(st, Ev("cont", "clear", loc, tuple(args), None, n, self))
                return U
            if meth in self.SIZE_INC:
                c = self.sym(st, ("ct", fn.sk, n["i"]), ("I", INF, INF, EMPTYFS))
                self.write(st, loc, c, n)
                sz = self.atom(st, ("size", c), ("I", 1, INF, EMPTYFS))
                self.emit(st, Ev("cont", meth, loc, tuple(args), None, n, self))
                return self.std_result(fn, st, n)
            if meth in self.MUT or (op in ("++", "--", "+=", "-=")) or \
                    (not n.get("const") and meth not in self.ACCESS and op not in ("[]", "*", "->", "<<", "()")):
                if meth == "swap" and args and type(args[0]) is tuple and args[0][0] == "l":
                    a = self.read(st, loc, "")
                    b = self.read(st, args[0][1], "")
                    self.write(st, loc, b, n)
                    self.write(st, args[0][1], a, n)
                    return U
                c = self.sym(st, ("ct", fn.sk, n["i"]), ("I", INF, INF, EMPTYFS))
                self.write(st, loc, c, n)
                self.emit(st, Ev("cont", meth or ("op" + (op or "")), loc, tuple(args), None, n, self))
                if op in ("++", "--", "+=", "-=", "<<") and n.get("lv"):
                    return obj
                return self.std_result(fn, st, n)
            if op == "<<" or op == ">>":
                return obj
            # accessor: uninterpreted function of the content
            c = self.cell(st, ("l", loc))
            if c == EMPTY_CONTENT and base in self.ITER:
                return self.uninterp(fn, st, n, ("end", c), loc)
            if base == "at":
                op = "[]"
            return self.uninterp(fn, st, n, (base if not op else "op" + op, c) +
                                 tuple(self.cell(st, a) for a in args), loc)
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(args) == 2:
            a, b = self.cell(st, args[0]), self.cell(st, args[1])
            ts = [fn.nodes.get(c, {}).get("t", "") for c in n.get("c", ())]
            if any(t.startswith("std::unique_ptr") or t.startswith("std::shared_ptr") for t in ts):
                return self.cmp(st, op, a, b)
            if op in ("==", "!="):
                r = self.veq(st, a, b)
                return self.lnot(r) if op == "!=" else r
            if a == U or b == U:
                return U
            return self.atom(st, ("std" + op, a, b), ("S", frozenset((0, 1))))
        if op in ("<<", ">>") and args:
            return args[0]
        if base == "make_pair" and len(args) == 2:
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            for nm, a, c in zip(("first", "second"), args, n["c"]):
                if type(a) is tuple and a[0] == "l":
                    self.copy_rec(st, a[1], tmp + (nm,), fn.nodes.get(c, {}).get("t", ""))
                else:
                    st.put(tmp + (nm,), a)
            return ("l", tmp)
        if base in ("max", "min"):
            return U
        if base in ("find", "find_if", "find_if_not") and len(args) >= 2:
            a, b = self.cell(st, args[0]), self.cell(st, args[1])
            if self.must(st, self.veq(st, a, b), 1):
                return args[1]
        return self.std_result(fn, st, n)

    ITER = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound"}
    ACCESS = {"begin", "end", "front", "back", "find", "at", "data", "c_str", "cbegin", "cend",
              "lower_bound", "upper_bound", "rbegin", "rend", "get", "str", "rdbuf", "count"}

    def uninterp(self, fn, st, n, key, loc):
        t = n.get("t", "")
        if n.get("lv"):
            # element access: object named by (content, accessor)
            if any(x == U for x in key):
                v = self.sym(st, ("r", fn.sk, n["i"]), ("I", 1, INF, EMPTYFS))
            else:
                v = self.atom(st, ("el",) + key, ("I", 1, INF, EMPTYFS))
            return ("l", (("o", v[1]),))
        if any(x == U for x in key):
            return self.std_result(fn, st, n)
        d = dom(self.P, t)
        v = self.atom(st, ("fn",) + key, ("I", 1, INF, EMPTYFS) if t.endswith("*") and "op->" in key else d)
        if n.get("rec"):
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            st.put(tmp, v)
            return ("l", tmp)
        return v

    def std_result(self, fn, st, n):
        t = n.get("t", "")
        if t == "void":
            return U
        if n.get("rec") and not n.get("lv"):
            tmp = (("m", fn.sk, n["i"]),)
            st.clear(tmp)
            if not (t.startswith("std::pair")):
                st.put(tmp, self.sym(st, ("r", fn.sk, n["i"]), ("I", INF, INF, EMPTYFS)))
            else:
                st.put(tmp + ("second",), self.sym(st, ("r", fn.sk, n["i"], 2), ("I", 0, INF, EMPTYFS)))
                st.put(tmp + ("first",), self.sym(st, ("r", fn.sk, n["i"], 1), ("I", INF, INF, EMPTYFS)))
            return ("l", tmp)
        v = self.sym(st, ("r", fn.sk, n["i"]), dom(self.P, t) if not n.get("lv") else ("I", 1, INF, EMPTYFS))
        if n.get("lv"):
            return ("l", (("o", v[1]),))
        return v


def this_key(v):
    return v


def show(v):
    if type(v) is int:
        return str(v)
    if v == U:
        return "?"
    if is_sym(v):
        return "nonzero/sym"
    if type(v) is tuple and v[0] == "l":
        return "obj"
    return str(v)


class Ev:
    __slots__ = ("kind", "name", "obj", "args", "ret", "node", "I")

    def __init__(self, kind, name, obj, args, ret, node, I):
        self.kind = kind
        self.name = name
        self.obj = obj
        self.args = args
        self.ret = ret
        self.node = node
        self.I = I


class Call:
    __slots__ = ("fn", "node", "obj", "args", "cname")

    def __init__(self, fn, node, obj, args, cname):
        self.fn = fn
        self.node = node
        self.obj = obj
        self.args = args
        self.cname = cname


class Monitor:
    kinds = ("call",)

    def on(self, I, st, ev):
        pass
