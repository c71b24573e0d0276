"""Path exploration.  Every feasible two-way decision on a symbolic condition forks the process
(copy-on-write state for free); at most `jobs` run at a time."""
import fcntl
import json
import os
import signal
import sys
import tempfile
import time
import traceback

import codegen_stats as cs
import expr as X
import rt
from expr import E, F, isc, isf, eq, lnot
from rt import PathEnd, EngineError
import solve
from solve import Solver, Unknown
import z3


class Timeout(Exception):
    pass


class St:
    pass


st = St()


def reset(opts):
    st.opts = opts
    st.solver = Solver(opts.get('feas_ms', 4000), opts.get('assert_ms', 60000))
    st.model = None
    st.known = {}
    st.inputs = []          # ('c', int) or ('v', node)
    st.nv = 0
    st.forks = 0
    st.folded = 0
    st.asserts = {}
    st.viol = []
    st.unknown = []
    st.reach = []
    st.trace = []
    st.on_panic = 0
    st.on_hang = 0
    st.assumed_feas = 0
    st.depth = 0


# ---- decisions -------------------------------------------------------------------------------
def holds_in_model(e):
    if st.model is None:
        return None
    try:
        b = st.solver.tb(e)
        if not st.solver.covered(e):
            return None          # fresh auxiliary symbols: the model says nothing about them
        v = st.model.eval(b, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except z3.Z3Exception:
        pass
    return None


def feasible(e):
    """(possible, model)"""
    r, m = st.solver.check(e, st.model)
    if r == 'unknown':
        st.assumed_feas += 1
        return True, None
    return r == 'sat', m


def learn(e):
    st.known[e.uid] = True
    n = lnot(e)
    if not isc(n):
        st.known[n.uid] = False
    if e.op == 'and':
        learn(e.a[0])
        learn(e.a[1])
    elif e.op == 'not' and e.a[0].op == 'or':
        for x in e.a[0].a:
            learn(lnot(x))


def assume(e, model=None):
    st.solver.assume(e)
    learn(e)
    st.model = model


def decide(e):
    if isc(e):
        return bool(e)
    k = st.known.get(e.uid)
    if k is not None:
        return k
    try:
        n = lnot(e)
        h = holds_in_model(e)
        if h is True:
            tm, t = st.model, True
            f, fm = feasible(n)
        elif h is False:
            fm, f = st.model, True
            t, tm = feasible(e)
        else:
            t, tm = feasible(e)
            if not t:
                f, fm = True, None
            else:
                f, fm = feasible(n)
    except Unknown as ex:
        raise EngineError('cannot encode branch: %s' % ex)
    if not t and not f:
        raise PathEnd('infeasible')
    if t and f:
        if fork_branch():
            assume(n, fm)
            return False
        assume(e, tm)
        return True
    if t:
        st.known[e.uid] = True
        if not isc(n):
            st.known[n.uid] = False
        if tm is not None:
            st.model = tm
        return True
    st.known[e.uid] = False
    if not isc(n):
        st.known[n.uid] = True
    if fm is not None:
        st.model = fm
    return False


def conc(e):
    for _ in range(st.opts.get('max_conc', 600)):
        if st.model is None:
            r, m = st.solver.check()
            if r != 'sat':
                raise EngineError('no model while concretising (%s)' % r)
            st.model = m
        b = st.solver.tbv(e)
        if not st.solver.covered(e):
            r, m = st.solver.check()
            if r != 'sat':
                raise EngineError('no model while concretising (%s)' % r)
            st.model = m
        v = st.model.eval(b, model_completion=True).as_long()
        if decide(eq(e, v, e.w)):
            return v
    raise EngineError('too many values while concretising %r' % e)


def fork_branch():
    """True in the new process"""
    st.forks += 1
    st.depth += 1
    if st.depth > st.opts.get('max_depth', 4000):
        raise EngineError('too many decisions on one path')
    par = False
    try:
        par = len(os.read(st.tok_r, 1)) == 1
    except BlockingIOError:
        pass
    pid = os.fork()
    if pid == 0:
        st.forks = 0
        st.kids = []
        st.child = True
        st.has_token = par
        st.viol = []
        st.unknown = []
        st.asserts = {}
        st.folded = 0
        st.solver.queries = 0
        st.solver.time = 0.0
        st.assumed_feas = 0
        st.reach = list(st.reach)
        arm()
        return True
    if par:
        st.kids.append(pid)
    else:
        os.waitpid(pid, 0)
        arm()
    return False


def arm():
    left = st.deadline - time.time()
    if left <= 0.05:
        raise Timeout()
    signal.setitimer(signal.ITIMER_REAL, left)


# ---- primitives ------------------------------------------------------------------------------
def sym_bv(w, tag):
    v = X.var('i%d' % st.nv, w)
    st.nv += 1
    st.inputs.append(('v', v))
    return X.zext(v, w, 64)


def sym_f64_range(lo, hi, tag):
    v = X.fvar('f%d' % st.nv, (lo, hi))
    st.nv += 1
    st.inputs.append(('v', v))
    return v


def sym_f64_any(tag):
    v = X.fvar('f%d' % st.nv, None)
    st.nv += 1
    st.inputs.append(('v', v))
    return v


def sym_choice(n, tag):
    n = rt.conc(n)
    for k in range(n - 1):
        if fork_branch():
            st.inputs.append(('c', k))
            return k
    st.inputs.append(('c', n - 1))
    return n - 1


def sym_pick(v, n):
    if isc(v):
        return v
    for i in range(n - 1):
        if decide(eq(v, i, 32)):
            return i
    return n - 1


def sym_assume(c):
    if isc(c):
        if not c:
            raise PathEnd('assume')
        return
    k = st.known.get(c.uid)
    if k is True:
        return
    if k is False:
        raise PathEnd('assume')
    h = holds_in_model(c)
    if h is True:
        assume(c, st.model)
        return
    ok, m = feasible(c)
    if not ok:
        raise PathEnd('assume')
    assume(c, m)


def vals(model):
    vs = iter(st.solver.values(model, [v for k, v in st.inputs if k != 'c']))
    return [v if k == 'c' else next(vs) for k, v in st.inputs]


def sym_assert(c, i):
    i = rt.conc(i)
    n, f = st.asserts.get(i, (0, 0))
    st.trace.append(('A', i))
    if isc(c):
        st.asserts[i] = (n, f + 1)
        if not c:
            # concretely false on a feasible path
            violated(i, 'assert')
            raise PathEnd('violated')
        return
    st.asserts[i] = (n + 1, f)
    try:
        if st.known.get(c.uid) is True:
            return
        r, m = st.solver.prove(c, st.model)
    except Unknown as ex:
        raise EngineError('cannot encode assertion %d: %s' % (i, ex))
    if r == 'unsat':
        learn(c)
        return
    if r == 'unknown' or m is None:
        st.unknown.append(i)
        learn(c)
        return
    cands = [vals(m)]
    if st.solver.tr.has_real:
        cands += margin_models(c)
    st.viol.append({'id': i, 'kind': 'assert', 'cands': cands, 'real': st.solver.tr.has_real})
    ok, m2 = feasible(c)
    if not ok:
        raise PathEnd('violated')
    assume(c, m2)


def margin_models(c):
    """counterexamples that violate by a clear margin (survive rounding)"""
    res = []
    sv = st.solver
    for d in (1.0, 1e-1, 1e-2, 1e-4, 1e-6, 1e-8):
        try:
            b = negm(c, sv.tr.q(d), sv.tr)
        except Unknown:
            break
        finally:
            sv.sync(solve.fv(c))
        if b is None:
            break
        r, m = sv.query(b, solve.fv(c), 10000, st.model, solve.hasf(c))
        if r == 'sat' and m is not None:
            res.append(vals(m))
            if len(res) >= 3:
                break
    return res


def negm(c, d, tr, pos=False):
    """not c (pos: c) with real comparisons strengthened by margin d"""
    if isc(c):
        return z3.BoolVal(bool(c) if pos else not c)
    if c.op == 'not':
        return negm(c.a[0], d, tr, not pos)
    if c.op in ('and', 'or'):
        x, y = negm(c.a[0], d, tr, pos), negm(c.a[1], d, tr, pos)
        return z3.And(x, y) if (c.op == 'and') == pos else z3.Or(x, y)
    if c.op in ('folt', 'fole') and X.iv(c.a[0]) and X.iv(c.a[1]):
        p, q = tr.r(c.a[0]), tr.r(c.a[1])
        return q - p >= d if pos else p - q >= d
    b = tr.b(c)
    return b if pos else z3.Not(b)


def violated(i, kind):
    if st.model is None:
        r, m = st.solver.check()
        if r == 'unsat':
            raise PathEnd('infeasible')
        if r == 'unknown':
            st.unknown.append(i)
            return
        st.model = m
    else:
        # the cached model may predate the newest symbols
        r, m = st.solver.check()
        if r == 'sat':
            st.model = m
        elif r == 'unsat':
            raise PathEnd('infeasible')
    st.viol.append({'id': i, 'kind': kind, 'cands': [vals(st.model)], 'real': st.solver.tr.has_real})


def sym_reach(i):
    i = rt.conc(i)
    st.reach.append(i)
    st.trace.append(('R', i))


def sym_out(i, v):
    st.trace.append(('O', int(i), v))


def sym_on_panic(i):
    st.on_panic = rt.conc(i)


def sym_on_hang(i):
    st.on_hang = rt.conc(i)


def sym_hang():
    raise PathEnd('hang')


def sym_done():
    raise PathEnd('done')


PRIM = {k: v for k, v in globals().items() if k.startswith('sym_')}
def mode(m):
    st.solver.tr.exact = X.exact[0] = m == 2


PRIM['sym_mode'] = mode
PRIM['sym_fork_select'] = lambda m: None
PRIM['sym_deep'] = lambda: 1 if os.environ.get('VERIF_DEEP') else 0


# ---- one exploration -------------------------------------------------------------------------
def record(rec):
    fd = os.open(st.results, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    fcntl.flock(fd, fcntl.LOCK_EX)
    os.write(fd, (json.dumps(rec) + '\n').encode())
    os.close(fd)


def onalarm(*a):
    raise Timeout()


def execute(fn):
    kind, info = 'error', ''
    try:
        try:
            fn()
            kind = 'done'
        except PathEnd as ex:
            kind, info = ex.kind, ex.info
            if kind in ('panic', 'segv', 'unreachable') and st.on_panic:
                violated(st.on_panic, kind)
            if kind in ('segv', 'unreachable') and not st.on_panic:
                info = kind + ' ' + info
                kind = 'error'
            if kind == 'hang' and st.on_hang:
                violated(st.on_hang, 'hang')
        sample = None
        if kind not in ('infeasible', 'assume', 'error') and not st.viol:
            signal.setitimer(signal.ITIMER_REAL, 0)
            r, m = st.solver.check()
            if r == 'unsat':
                kind = 'infeasible'
            elif r == 'sat':
                tr = []
                for t in st.trace:
                    if t[0] == 'O':
                        v = t[2]
                        if isinstance(v, E):
                            b = st.solver.tbv(v)
                            v = m.eval(b, model_completion=True).as_long() if st.solver.covered(v) else None
                        tr.append(['O', t[1], int(v) if v is not None else None])
                    else:
                        tr.append(list(t))
                sample = {'vals': vals(m), 'trace': tr, 'exact': not st.solver.tr.has_real}
            else:
                st.assumed_feas += 1
    except Timeout:
        kind = 'timeout'
        sample = None
    except PathEnd as ex:
        kind, info, sample = ex.kind, ex.info, None
    except BaseException as ex:      # noqa
        kind, info, sample = 'error', '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:]), None
    signal.setitimer(signal.ITIMER_REAL, 0)
    record({'kind': kind, 'info': info[:2000], 'forks': st.forks, 'queries': st.solver.queries, 'time': st.solver.time,
            'asserts': st.asserts, 'reach': st.reach if kind != 'infeasible' else [], 'viol': st.viol,
            'unknown': st.unknown, 'sample': sample, 'assumed_feas': st.assumed_feas,
            'real': st.solver.tr.has_real, 'nonlinear': st.solver.tr.nonlinear, 'fp': st.solver.tr.has_fp,
            'functions': cs.functions if not st.child else [], 'nfun': len(cs.functions), 'instrs': cs.instrs, 'blocks': cs.blocks,
            'inputs': len(st.inputs), 'nodes': X.nodes()})
    if st.has_token:
        os.write(st.tok_w, b'x')
    for p in st.kids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    os._exit(0)


class Pool:
    """shared pool of `jobs` tokens; every running process of an exploration holds one"""

    def __init__(self, jobs=8):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        self.n = jobs
        os.write(self.w, b'x' * jobs)

    def take(self):
        import select
        while True:
            select.select([self.r], [], [])
            try:
                if os.read(self.r, 1):
                    return
            except BlockingIOError:
                pass


def start(name, opts, pool):
    """start exploring harness `name` in a process of its own (waits for a free token)"""
    pool.take()
    d = tempfile.mkdtemp(prefix='vsym')
    results = os.path.join(d, 'r')
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, onalarm)
            reset(opts)
            st.results = results
            st.tok_r, st.tok_w = pool.r, pool.w
            st.kids = []
            st.child = False
            st.has_token = True
            st.deadline = time.time() + opts.get('timeout', 600)
            sys.setrecursionlimit(200000)
            X.hooks['decide'] = decide
            rt.hooks['conc'] = conc
            g = rt.ns['G%d' % rt.mod.fidx['@' + name]]
            arm()
            execute(g)
        finally:
            os._exit(9)
    return {'name': name, 'pid': pid, 'dir': d, 'results': results, 't0': t0}


def collect(job):
    recs = []
    try:
        with open(job['results']) as f:
            for ln in f:
                recs.append(json.loads(ln))
    except FileNotFoundError:
        pass
    import shutil
    shutil.rmtree(job['dir'], ignore_errors=True)
    return recs


def explore(name, opts):
    job = start(name, opts, Pool(opts.get('jobs', 8)))
    os.waitpid(job['pid'], 0)
    return collect(job)


def load(path):
    rt.load_module(path, PRIM)
