"""A simulated parallel runtime for numba's prange loops.

A kernel compiled with parallel=True is taken back to its Python source.  Every
outermost prange loop becomes a function over a list of indices, executed by
simulated threads under the seeded scheduler:

- the iterations are cut into chunks, the chunks dealt to 1..8 threads, and each
  thread runs its chunks in a seeded order, pre-empted at statement starts and
  after calls;
- a name assigned in the loop is private to the chunk (it starts with the value
  it had before the loop), as numba makes it;
- a name that is only accumulated (x += ..., x = x + ..., x = max(x, ...)) and
  exists before the loop is a reduction: each chunk has a private partial
  result, and the partials are merged in a seeded order;
- everything else (arrays written by subscript, buffers made before the loop) is
  shared by the threads.

prange loops inside run in a seeded order.  Jitted functions called by the
kernel stay compiled.
"""
import ast
import inspect
import operator
import textwrap
import threading

import numpy as np

from . import core

RT = None        # the runtime of the current run: how loops are executed


def _is_prange(n):
    return isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and (getattr(n.iter.func, 'id', None) == 'prange' or getattr(n.iter.func, 'attr', None) == 'prange')


def _names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


_OPS = {ast.Add: '+', ast.Sub: '+', ast.Mult: '*'}


def _assigned(body):
    """name -> list of kinds: reduction operator or None"""
    out = {}

    def add(name, kind):
        out.setdefault(name, []).append(kind)

    for top in body:
        for n in ast.walk(top):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                add(n.target.id, _OPS.get(type(n.op)))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        k, v = None, n.value
                        if isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == t.id and t.id not in _names(v.right):
                            k = _OPS.get(type(v.op))
                        elif isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult)) and isinstance(v.right, ast.Name) and v.right.id == t.id and t.id not in _names(v.left):
                            k = _OPS.get(type(v.op))
                        elif isinstance(v, ast.Call) and getattr(v.func, 'id', None) in ('min', 'max') and any(isinstance(a, ast.Name) and a.id == t.id for a in v.args):
                            k = v.func.id
                        add(t.id, k)
                    else:
                        for m in ast.walk(t):
                            if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                                add(m.id, None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        add(m.id, None)
            elif isinstance(n, (ast.NamedExpr, ast.AnnAssign)) and isinstance(n.target, ast.Name):
                add(n.target.id, None)
    return out


class _Inner(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if _is_prange(n):
            n.iter = ast.Call(ast.Name('__shuffled', ast.Load()), n.iter.args, [])
        return n


class _Outer(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_For(self, n):
        if not _is_prange(n):
            self.generic_visit(n)
            return n
        k = self.n
        self.n += 1
        body = [_Inner().visit(b) for b in n.body]
        asg = _assigned(body)
        tgt = _names(n.target)
        red = {x: ks[0] for x, ks in asg.items() if x not in tgt and ks[0] is not None and len(set(ks)) == 1}
        priv = [x for x in asg if x not in tgt]
        fn = f'__loop{k}'
        src = f'def {fn}(__idx, {", ".join(priv)}):\n    for _ in __idx:\n        pass\n    return ({"".join(r + ", " for r in red)})\n'
        f = ast.parse(src).body[0]
        f.body[0].target, f.body[0].body = n.target, body
        # values before the loop, where there are any
        call = f'__before{k} = __known(locals(), {priv!r})'
        pre = ast.parse(call).body
        run = ast.parse(f'__out{k} = __parallel({fn}, __range(), __before{k}, {priv!r}, {red!r})').body[0]
        run.value.args[1].args = n.iter.args
        out = pre + [f, run]
        for r in red:
            out += ast.parse(f'if {r!r} in __out{k}:\n    {r} = __out{k}[{r!r}]').body
        new = []
        for s in out:
            new.append(ast.copy_location(s, n))
            for m in ast.walk(s):
                if not hasattr(m, 'lineno') and hasattr(m, '_attributes') and 'lineno' in m._attributes:
                    ast.copy_location(m, n)
        return new


class _Unset:
    def __repr__(self):
        return 'a value that does not exist before the loop'


UNSET = _Unset()


def _known(loc, names):
    return {k: loc[k] for k in names if k in loc}


def _identity(op, v):
    if op == '+':
        return np.zeros_like(v) if isinstance(v, np.ndarray) else type(v)(0)
    if op == '*':
        return np.ones_like(v) if isinstance(v, np.ndarray) else type(v)(1)
    return v.copy() if isinstance(v, np.ndarray) else v


_MERGE = {'+': operator.add, '*': operator.mul, 'min': np.minimum, 'max': np.maximum}


def _parallel(fn, idx, before, priv, red):
    red = {k: op for k, op in red.items() if k in before}
    rt = RT
    chunks = rt.cut(list(idx))
    outs = []

    def work(mine):
        for c in mine:
            args = [_identity(red[k], before[k]) if k in red else before.get(k, UNSET) for k in priv]
            got = fn(c, *args)
            outs.append(dict(zip(names, got)))

    names = _REDS[fn.__code__.co_filename, fn.__code__.co_name]
    rt.execute(work, chunks)
    res = {k: before[k] for k in red}
    for o in rt.order(outs):
        for k, op in red.items():
            res[k] = _MERGE[op](res[k], o[k])
    return res


_REDS = {}        # (file, loop function) -> names it returns


class Runtime:
    """how the parallel loops of one run are executed; every decision is a choice of the run"""

    def __init__(self, ch, threads):
        self.ch, self.threads = ch, threads
        self.loops = self.chunks = self.used = 0

    def cut(self, idx):
        self.loops += 1
        if not idx:
            return []
        n, ch = len(idx), self.ch
        how = ch.pick(['even', 'random', 'single', 'shuffled'])
        if how == 'single':
            out = [[i] for i in idx]
        elif how == 'even':
            k = min(self.threads, n)
            out = [list(idx[n * i // k:n * (i + 1) // k]) for i in range(k)]
        else:
            if how == 'shuffled':
                idx = self.order(idx)
            cuts = sorted({ch.between(1, n) for _ in range(ch.between(0, min(n, 6)))} - {n}) if n > 1 else []
            out = [list(idx[a:b]) for a, b in zip([0] + cuts, cuts + [n])]
        self.chunks += len(out)
        return self.order(out) if ch.between(0, 1) else out

    def order(self, x):
        x = list(x)
        r = self.ch.between(0, 2)
        if r == 2:
            return [x[i] for i in self.ch.perm(len(x))]
        return x[::-1] if r else x

    def execute(self, work, chunks):
        k = min(self.threads, max(len(chunks), 1))
        self.used = max(self.used, k)
        if k == 1:
            return work(chunks)
        errs = []

        def body(mine):
            try:
                work(mine)
            except Exception as e:        # noqa: BLE001
                errs.append(e)
        ts = [threading.Thread(target=body, args=(chunks[i::k],)) for i in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]


def _shuffled(*a):
    return RT.order(range(*a))


def _tree(py):
    src = textwrap.dedent(inspect.getsource(py))
    t = ast.parse(src)
    f = t.body[0]
    f.decorator_list = []
    f.returns = None
    for a in f.args.args + f.args.kwonlyargs:
        a.annotation = None
    f.name = py.__name__
    return t


def sequential(py):
    """the kernel as plain Python, one iteration after the other"""
    t = _tree(py)
    g = dict(py.__globals__)
    g['prange'] = range
    if 'numba' in g:
        class N:
            prange = range

            def __getattr__(self, k):
                import numba
                return getattr(numba, k)
        g['numba'] = N()
    exec(compile(t, f'<sequential {py.__module__}>', 'exec'), g)
    return g[py.__name__]


def parallel(py):
    """the kernel with its prange loops executed by simulated threads"""
    t = _tree(py)
    tr = _Outer()
    f = t.body[0]
    f.body = [y for s in f.body for y in (lambda r: r if isinstance(r, list) else [r])(tr.visit(s))]
    if not tr.n:
        return None
    ast.fix_missing_locations(t)
    fname = f'<parallel {py.__module__}.{py.__name__}>'
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and n.name.startswith('__loop'):
            r = n.body[-1].value
            _REDS[fname, n.name] = [e.id for e in r.elts]
    g = dict(py.__globals__)
    g.update(__range=range, __shuffled=_shuffled, __parallel=_parallel, __known=_known)
    code = compile(t, fname, 'exec')
    exec(code, g)
    core.watch_code(g[py.__name__].__code__)
    return g[py.__name__]
