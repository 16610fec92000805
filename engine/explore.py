"""Parallel closure of the top states of a driver (worklist over forked workers)."""
import multiprocessing as mp
import os
import time
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from interp import Limit

_W = None


def _flat(st):
    out = []
    t = st.trace
    while t is not None:
        out.append(t[1])
        t = t[0]
    st.trace = None
    return out[::-1]


def _work(item):
    key_i, st = item
    W = _W
    I = W.I
    I.violations.clear()
    s0, c0 = I.steps, dict(events=I.cov["events"])
    st.trace = None
    out = []
    seen = set()
    for x in W.succ(st):
        c = W.canon(x)
        k = c.key()
        if k in seen:
            continue
        seen.add(k)
        out.append((c, _flat(c)))
    vio = list(I.violations.values())
    fns = frozenset(I.cov["functions"])
    return key_i, out, vio, I.steps - s0, I.cov["events"] - c0["events"], fns, dict(I.notes)


class Result:
    pass


def explore(W, jobs=None, max_states=60000, budget=780, starts=None):
    """least fixpoint of W.succ from W.start(); returns Result with violations (with full histories)."""
    global _W
    _W = W
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    R = Result()
    R.steps = W.I.steps
    R.events = 0
    R.functions = set(W.I.cov["functions"])
    R.violations = dict(W.I.violations)
    R.notes = {}
    tops = []
    parent = []
    index = {}
    work = []

    def add(c, par, seg):
        k = c.key()
        if k in index:
            return
        index[k] = len(tops)
        tops.append(c)
        parent.append((par, seg))
        work.append(len(tops) - 1)
        if len(tops) > max_states:
            raise Limit("more than %d session states" % max_states)

    for st in (starts if starts is not None else W.start()):
        c = W.canon(st)
        add(c, None, _flat(c))

    def history(i):
        segs = []
        while i is not None:
            p, seg = parent[i]
            segs.append(seg)
            i = p
        out = []
        for s in reversed(segs):
            out.extend(s)
        return out

    def merge(r):
        i, out, vio, steps, ev, fns, notes = r
        R.steps += steps
        R.events += ev
        R.functions |= fns
        for k, v in notes.items():
            R.notes.setdefault(k, set()).update(v)
        for v in vio:
            if v.ident() not in R.violations:
                v.trace = history(i) + v.trace
                R.violations[v.ident()] = v
        for c, seg in out:
            add(c, i, seg)

    if jobs == 1:
        while work:
            i = work.pop(0)
            merge(_work((i, tops[i].copy())))
    else:
        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
            pend = set()
            while work or pend:
                while work and len(pend) < jobs * 3:
                    i = work.pop(0)
                    pend.add(ex.submit(_work, (i, tops[i].copy())))
                done, pend = wait(pend, return_when=FIRST_COMPLETED)
                for f in done:
                    merge(f.result())
                if time.time() - t0 > budget:
                    for p in ex._processes.values():
                        p.kill()
                    raise Limit("state exploration exceeded its time budget (%d states)" % len(tops))
    R.top = {c.key(): c for c in tops}
    R.tops = tops
    R.wall = time.time() - t0
    R.history = history
    return R
