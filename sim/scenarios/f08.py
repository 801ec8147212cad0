"""Calculations that are interrupted or run out of memory: they report it, and the model afterwards is as good as if they had not been asked for."""
import copy

from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M
from . import f06

RUNS = dict(quick=4500, thorough=60000)
WALL = dict(quick=60, thorough=780)
RULE = ('one simulated session = one seed: a model, operations with a fault each (an exception at a line of the library, a failing allocation through NumPy, a failing allocation in '
        'the compiled parts, a load function that fails at its n-th call), edits and undisturbed operations in between; non-trivial when a fault fired')
DISTINCT = 'distinct pairs of operation and place where the fault struck, and distinct digests of the results'
REAL = Z.REAL
STUB = ['asynchronous exceptions (raised at a line of the library chosen by the seed)', 'allocation failures (NumPy functions and malloc in the compiled parts)',
        'reference: independent dense NumPy model']
ASSUME = ['an interrupt is seen between two lines of Python code', 'the interpreter and NumPy survive failing allocations of their own']
TIME = 'no clock in the simulated code; time is measured in lines of the library and allocations, see counters'


def preload():
    M.kappa_probe()


def gen_fault(rng, model, op):
    kinds = ['line', 'line', 'line', 'alloc', 'alloc', 'heap']
    if op['op'] == 'fext' and model['kind'] != 'bay':
        kinds += ['load', 'load', 'load', 'load']
    k = rng.choice(kinds)
    f = dict(kind=k, at=round(rng.random(), 4), fill=rng.choice([None, rng.getrandbits(60)]))
    if k == 'line':
        f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
        # the k-th line that runs, or the n-th time that the k-th of the different lines runs
        f['nth'] = rng.choice([None, 0, 0, 1, 2, 3])
    elif k == 'alloc':
        f['n'] = rng.choice([1, 1, 2, 1000])
    elif k == 'heap':
        f['n'] = rng.choice([1, 1, 3])
    return f


def gen(rng, tier, i):
    model = Z.gen_model(rng, 'ssmmbb', mn=(2, 3))
    for p in dict(shell=[model['spec']], md=model['spec'].get('panels'), bay=[])[model['kind']]:
        if len(p['loads']) < 2 and rng.random() < .6:
            p['loads'] = p['loads'] + [M.gen_load(rng) for _ in range(rng.randint(1, 3))]
    cur = copy.deepcopy(model)
    steps = []
    for _ in range(rng.randint(3, 8) if tier == 'quick' else rng.randint(3, 24)):
        if rng.random() < .3:
            e = H.gen_edit(rng, cur)
            H.apply_edit(cur, e)
            steps.append(dict(do='edit', e=e))
        op = Z.gen_op(rng, cur, ['fext'] if rng.random() < .15 else None)
        if rng.random() < .65:
            steps.append(dict(do='fault', op=op, f=gen_fault(rng, cur, op)))
            if rng.random() < .5:
                steps.append(dict(do='op', op=op if rng.random() < .6 else Z.gen_op(rng, cur)))
        else:
            steps.append(dict(do='op', op=op))
    steps.append(dict(do='op', op=Z.gen_op(rng, cur)))
    return dict(model=model, steps=steps)


EXC = dict(KeyboardInterrupt=env.SimKeyboardInterrupt, MemoryError=env.SimMemoryError)


def load_funcs(model, parts):
    """The load functions of the model, to make one of them fail."""
    out = []
    for p in parts if model['kind'] == 'md' else parts[:1]:
        if hasattr(p, 'distr_loads'):
            for l in H.LISTS:
                for row in getattr(p, l):
                    for x in row:
                        while getattr(x, 'func', None) is not None and getattr(x, 'args', None):
                            x = [a for a in x.args if callable(a)][0]
                        if isinstance(x, M.Poly):
                            out.append(x)
    return out


def twin(obj, parts):
    memo = {}
    o = copy.deepcopy(obj, memo)
    return o, [memo.get(id(p), p) for p in parts]


class LoadError(Exception):
    pass


def disturbed(f, obj, parts, model, op, ctx):
    """(result or None, exception or None, where the fault struck or None)"""
    fn = lambda o, p: Z.perform(o, model, op, p)
    kind = f['kind']
    if kind == 'load':
        fs = load_funcs(model, parts)
        if not fs:
            return fn(obj, parts), None, None
        x = fs[int(f['at'] * len(fs))]
        x.fail_at, x.exc, x.calls = 1 + int(f['at'] * 977) % 7, LoadError, 0
        try:
            try:
                return fn(obj, parts), None, None
            except LoadError as e:
                ctx.faults['load function fails'] += 1
                return None, e, 'load call %d' % x.fail_at
        finally:
            x.fail_at = None
    # how many places there are: from an undisturbed run of a twin
    o2, p2 = twin(obj, parts)
    if kind == 'line':
        with env.inject_at_line(-1, collect=True) as c:
            fn(o2, p2)
        k = int(f['at'] * c.count)
        if f.get('nth') is not None and c.count:
            lines = sorted(set(c.sites))
            line = lines[min(int(f["at"] * len(lines)), len(lines) - 1)]
            at = [i for i, x in enumerate(c.sites) if x == line]
            k = at[min(f['nth'], len(at) - 1)]
        try:
            with env.inject_at_line(k, EXC[f['exc']]) as inj:
                got = fn(obj, parts)
            return got, None, inj.fired
        except EXC[f['exc']] as e:
            ctx.faults['%s at a line' % f['exc']] += 1
            ctx.counters['lines passed'] += k
            return None, e, inj.fired
    if kind == 'alloc':
        with env.failing_alloc(-1) as c:
            fn(o2, p2)
        if not c.count:
            return fn(obj, parts), None, None
        k = int(f['at'] * c.count)
        try:
            with env.failing_alloc(k, f['n']) as inj:
                got = fn(obj, parts)
            return got, None, 'alloc' if inj.fired else None
        except MemoryError as e:
            ctx.faults['NumPy allocation fails'] += 1
            return None, e, 'alloc %d' % k
    with env.heap(fill=f['fill']) as c:
        fn(o2, p2)
    if not c.calls:
        return fn(obj, parts), None, None
    k = int(f['at'] * c.calls)
    inj = env.heap(fill=f['fill'], fail_at=k, fail_len=f['n'])
    try:
        with inj:
            got = fn(obj, parts)
        return got, None, 'heap' if inj.failed else None
    except MemoryError as e:
        ctx.faults['malloc fails'] += 1
        return None, e, 'heap %d' % k


def run(plan, ctx):
    model = copy.deepcopy(plan['model'])
    obj, parts = Z.make(model)
    held = H.Held()
    last = None
    for q, st in enumerate(plan['steps']):
        if st['do'] == 'edit':
            H.apply_edit(model, st['e'], obj, parts)
            continue
        op = st['op']
        where = Z.where(model, op)
        if st['do'] == 'fault':
            before = snapshot(model, obj, parts)
            got, exc, hit = disturbed(st['f'], obj, parts, model, op, ctx)
            if hit:
                ctx.nontrivial = True
                ctx.hashes.append('%s %s %s' % (where, st['f']['kind'], hit))
            ctx.counters['disturbed operations'] += 1
            ctx.counters['disturbed %s' % where] += 1
            d = differ(before, snapshot(model, obj, parts))
            if d:
                ctx.violation('definition-modified', 'step %d: interrupted at %s: %s' % (q, hit, d), where)
                return
            ch = held.changed()
            if ch:
                ctx.violation('earlier-result-changed', 'step %d: interrupted at %s: arrays returned by %s' % (q, hit, ch), where)
                return
            ctx.observe(type(exc).__name__, str(hit))
            last = (q, st['f']['kind'], hit, where) if exc is not None else last
            if exc is not None:
                continue
            kind = 'wrong-result-instead-of-an-error' if hit else 'wrong-result'
        else:
            got = Z.perform(obj, model, op, parts)
            kind = 'wrong-result-after-a-failure' if last else 'wrong-result'
            ctx.counters['operations'] += 1
        ctx.observe(Z.plain(got))
        m = M.mismatch(got, Z.expect(model, op))
        if m:
            ctx.violation(kind, 'step %d: %s%s' % (q, m, ' (last failure: step %d, %s at %s in %s)' % last if last else ''), where)
            return
        held.add('step %d (%s)' % (q, where), got.get('_raw'))
    ctx.counters['sessions'] += 1


def snapshot(model, obj, parts):
    k = model['kind']
    if k == 'md':
        out = {'panel %d' % i: f06.definition(p, 'shell') for i, p in enumerate(parts)}
        out['conn'] = H.conn_state(obj)
        out['panels'] = [parts.index(p) for p in obj.panels]
        return out
    return {k: f06.definition(obj, k)}


def differ(a, b):
    for k in sorted(a):
        if isinstance(a[k], dict):
            d = f06.differ(a[k], b[k])
            if d:
                return '%s: %s' % (k, d)
        elif a[k] != b[k]:
            return k
    return None


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if any(s['do'] == 'op' for s in l) or any(s['do'] == 'fault' for s in l):
            yield Z.with_(plan, steps=l)
    for i, s in enumerate(plan['steps']):
        def rep(**kw):
            return Z.with_(plan, steps=plan['steps'][:i] + [dict(s, **kw)] + plan['steps'][i + 1:])
        if 'op' in s:
            for o in Z.simpler_op(s['op']):
                yield rep(op=o)
        if s['do'] == 'fault':
            yield rep(do='op')
            if s['f'].get('n', 1) > 1:
                yield rep(f=dict(s['f'], n=1))
            if s['f'].get('fill') is not None:
                yield rep(f=dict(s['f'], fill=None))
    for m in Z.simpler_model(plan['model']):
        yield Z.with_(plan, model=m)
