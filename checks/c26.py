"""C26 former module names give the same modules in every import history."""
import errno
import importlib
import importlib.machinery
import json
import logging
import os
import pickle
import sys
import types
import warnings

from sim import core, disk  # noqa: F401

TECHNIQUE = 'seeded import histories in a fresh interpreter, with failing reads of module files, against the table of moved files'
QUICK, THOROUGH = 220, 20000
RULE = ('Each run starts from an interpreter that has not imported hexrd and performs 3-16 imports in seeded order: former and present names, whole modules, names from modules, packages and their submodules, attribute access, '
        'unpickling by former name; in some runs reading a module file fails once or twice (I/O error, too many open files, out of memory). '
        'After the history every former name used must be the present module, no source file may have been executed under two names, and every name it stands for must be there and be the same object.')
REAL = ['hexrd.module_map (import hook, aliases), hexrd.__getattr__ and the package initialisers', 'Python import system and source files of the whole package']
STUB = ['order of imports', 'reading of module files (fails on demand)']
ASSUME = ['one thread imports at a time', 'former names whose present file cannot be imported on this Python or does not exist are left out', 'after a failed import of a package that has loaded some of its submodules, the package is imported again before its submodules (as Python requires of any package)', 'which of several new homes a former module stands for is read from file_table.tsv (the core one, else the first)']

REPO = os.environ['VERIF_REPO']
DUNDER = {'__name__', '__file__', '__package__', '__path__', '__loader__', '__spec__', '__doc__', '__builtins__', '__cached__', '__all__', '__annotations__'}


def dotted(path):
    p = path.replace('\\', '/')
    if p.endswith('.py'):
        p = p[:-3]
    if p.endswith('/__init__'):
        p = p[:-9]
    return p.replace('/', '.')


def table():
    t = {}
    with open(f'{REPO}/hexrd/file_table.tsv') as f:
        for line in f:
            w = line.split()
            if len(w) == 2 and w[0].endswith('.py') and w[0].startswith('hexrd/') and w[1].endswith('.py'):
                t.setdefault(dotted(w[0]), []).append(w[1])
    out = {}
    for old, new in t.items():
        pick = next((n for n in new if '/core/' in n), new[0])
        if os.path.exists(f'{REPO}/{pick}') and dotted(pick) != old:
            out[old] = (dotted(pick), [dotted(n) for n in new])
    return out


def survey(q):
    """in a throw-away child: what can be imported, what it defines, what else it needs"""
    warnings.simplefilter('ignore')
    out = {'bad': [], 'names': {}}
    before = set(sys.modules)
    for old, (new, every) in sorted(TABLE.items()):
        for n in every:
            try:
                m = importlib.import_module(n)
            except Exception:
                out['bad'].append(n)
                continue
            out['names'][n] = sorted(k for k, v in vars(m).items() if not k.startswith('__') and not isinstance(v, types.ModuleType))
    own = {n: [k for k in out['names'][n] if getattr(vars(sys.modules[n])[k], '__module__', None) == n and callable(vars(sys.modules[n])[k])] for n in out['names']}
    out['own'] = own
    out['third'] = sorted({k.split('.')[0] for k in set(sys.modules) - before if not k.startswith('hexrd')})
    out['all'] = sorted(k for k in set(sys.modules) - before if not k.startswith('hexrd'))
    q.write(json.dumps(out))


def setup():
    global TABLE, OLD, INFO
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    TABLE = table()
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as q:
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                survey(q)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as q:
        INFO = json.loads(q.read())
    os.waitpid(pid, 0)
    dn, keep = os.open('/dev/null', os.O_RDWR), os.dup(2)
    os.dup2(dn, 2)
    for k in INFO['all']:
        try:
            importlib.import_module(k)
        except Exception:
            pass
    os.dup2(keep, 2)
    assert not [k for k in sys.modules if k.split('.')[0] == 'hexrd']
    bad = set(INFO['bad'])
    OLD = sorted(o for o, (n, every) in TABLE.items() if n not in bad)
    assert len(OLD) > 60


class Watch:
    """counts executions of source files of the package, and makes the n-th read fail"""

    def __init__(self, ctx):
        self.ctx, self.done, self.left, self.err, self.n, self.hit, self.target = ctx, {}, 0, None, 0, None, None

    def install(self):
        L = importlib.machinery.SourceFileLoader
        ex, gc = L.exec_module, L.get_code

        def get_code(me, name):
            p = os.path.realpath(me.get_filename(name))
            if p.startswith(REPO + '/hexrd/'):
                self.n += 1
                if self.left and (self.target is None or self.target == name):
                    self.left -= 1
                    if not self.left:
                        self.hit = os.path.relpath(p, REPO)
                        self.ctx.fault('module-read-fails')
                        raise MemoryError('simulated') if self.err == 'memory' else OSError(self.err, os.strerror(self.err), p)
            return gc(me, name)

        def exec_module(me, module):
            ex(me, module)
            p = os.path.realpath(me.path)
            if p.startswith(REPO + '/hexrd/'):
                self.done.setdefault(p, []).append((module.__name__, module))
        L.exec_module, L.get_code = exec_module, get_code


def act(kind, old, new, name):
    """one import, returns what it gives"""
    if kind == 'module':
        return importlib.import_module(old)
    if kind == 'new':
        return importlib.import_module(new)
    if kind == 'statement':
        ns = {}
        exec(f'import {old}', ns)
        m = ns['hexrd']
        for p in old.split('.')[1:]:
            m = getattr(m, p)
        return m
    if kind == 'as':
        ns = {}
        exec(f'import {old} as x', ns)
        return ns['x']
    if kind == 'from-parent':
        ns = {}
        a, b = old.rsplit('.', 1)
        exec(f'from {a} import {b} as x', ns)
        return ns['x']
    if kind == 'name':
        ns = {}
        exec(f'from {old} import {name} as x', ns)
        return ns['x']
    if kind == 'unpickle':
        return pickle.loads(f'c{old}\n{name}\n.'.encode())
    if kind == 'attribute':
        import hexrd
        return getattr(hexrd, old.split('.')[1])


def again():
    """packages whose own import failed are imported anew, outermost first (Python does not do that by itself when a subpackage is there already)"""
    for n in sorted({k.rsplit('.', i)[0] for k in list(sys.modules) if k.split('.')[0] == 'hexrd' for i in range(1, k.count('.') + 1)} | {'hexrd'}):
        if n not in sys.modules:
            importlib.import_module(n)


def run(ch, ctx):
    w = Watch(ctx)
    w.install()
    used = []
    ctx.nontrivial = True
    focus = ch.chance(0.5)
    if focus:      # stay around one former package
        tops = sorted({o.split('.')[1] for o in OLD})
        split = sorted({o.split('.')[1] for o in OLD if len(TABLE[o][1]) > 1 or TABLE.get(o.rsplit('.', 1)[0], [o])[0] not in (o, TABLE[o][0].rsplit('.', 1)[0])})
        top = ch.pick(split if ch.chance(0.5) else tops)
        pool = [o for o in OLD if o.split('.')[1] == top]
    else:
        pool = OLD
    faulty = ch.chance(0.4)
    for step in range(ch.between(3, 16)):
        old = ch.pick(pool)
        new, every = TABLE[old]
        kind = ch.pick(['module', 'statement', 'as', 'from-parent', 'name', 'unpickle', 'attribute', 'new'], 'w', [3, 2, 2, 3, 3, 2, 2, 3])
        own = INFO['own'].get(new, [])
        name = ch.pick(own) if own else None
        if kind in ('name', 'unpickle') and not name or kind == 'attribute' and old.count('.') > 1:
            kind = 'module'
        if faulty and ch.chance(0.5, 'f'):
            near = sorted({m for o in OLD if o == old or o.startswith(old + '.') for m in [TABLE[o][0]] + TABLE[o][1] if m not in sys.modules})
            w.target = ch.pick(near, 'f') if near and ch.chance(0.5, 'f') else None
            w.left, w.err = 1 if w.target else 1 + ch.below(ch.pick([3, 12, 60], 'f'), 'f'), ch.pick([errno.EIO, errno.EMFILE, errno.ENOMEM, 'memory'], 'f')
        ctx.say(kind, old, name if kind in ('name', 'unpickle') else '')
        w.hit = None
        try:
            got = act(kind, old, new, name)
        except BaseException as e:
            if w.hit is None:
                ctx.fail('import-failed', f'{kind} {old} {name or ""}: {e!r}'[:400])
            ctx.say('  failed reading', w.hit)
            ctx.probe('import-failed')
            w.left = 0
            again()
            continue
        if w.hit:
            ctx.say('  survived', w.hit)
            ctx.probe('fault-survived')
        w.left = 0
        used.append((kind, old, name))
        want = sys.modules.get(new)
        ctx.evals += 1
        if kind in ('name', 'unpickle'):
            ctx.require(want is not None, 'not-loaded', f'{kind} {old}.{name}: {new} is not loaded')
            want = getattr(want, name)
        if kind in ('from-parent', 'statement', 'as') and not isinstance(got, types.ModuleType):
            a, b = new.rsplit('.', 1)      # a function shadows the module of the same name
            want = vars(sys.modules[a]).get(b)
        ctx.require(got is want, 'other-object', f'{kind} {old} {name or ""} gave {str(got)[:150]}, not {str(want)[:150]}')
    for kind, old, name in used:
        new, every = TABLE[old]
        a, b = importlib.import_module(old), importlib.import_module(new)
        ctx.require(a is b is sys.modules[new], 'other-module', f'{old} and {new} are different modules')
        for c in [new] + every:
            if c not in INFO['names'] or kind == 'new' and c != new:
                continue
            m = importlib.import_module(c)
            for k in INFO['names'][c]:
                ctx.evals += 1
                ctx.require(k in vars(m), 'name-missing', f'{c} has no {k}')
                if k in INFO['own'].get(c, []):
                    ctx.require(getattr(vars(m)[k], '__module__', None) == c, 'other-object', lambda: f'{c}.{k} is now that of {vars(m)[k].__module__}')
                if c == new or k in INFO['own'].get(c, []) and k not in INFO['names'][new]:
                    ctx.require(k in vars(a), 'name-missing', f'{old} has no {k} of {c}')
                    ctx.require(c != new or vars(a)[k] is vars(b)[k], 'other-object', f'{old}.{k} is not {new}.{k}')
    for old in sorted({o for _, o, _ in used}):
        for o in OLD:
            if o.startswith(old + '.') and o.count('.') == old.count('.') + 1:
                try:
                    got = act('from-parent', o, None, None)
                except ImportError as e:
                    ctx.fail('import-failed', f'in the end, from-parent {o}: {e!r}'[:400])
                want = importlib.import_module(TABLE[o][0])
                if not isinstance(got, types.ModuleType):
                    a, b = TABLE[o][0].rsplit('.', 1)
                    want = vars(importlib.import_module(a)).get(b)
                ctx.require(got is want, 'other-object', f'in the end, from-parent {o} gave {str(got)[:150]}, not {str(want)[:150]}')
                ctx.evals += 1
    for p, l in w.done.items():
        ctx.require(len({n for n, _ in l}) == 1, 'executed-twice', f'{os.path.relpath(p, REPO)} was executed as {sorted({n for n, _ in l})}')
        live = [m for n, m in l if sys.modules.get(n) is m]
        ctx.require(len(l) == 1 or ctx.probes.get('import-failed'), 'executed-twice', f'{os.path.relpath(p, REPO)} was executed {len(l)} times')
        ctx.evals += 1
        del live
