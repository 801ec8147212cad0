"""What the scenarios share: the three kinds of model a user builds, and ways of making a failing plan smaller."""
import copy

from . import bays as B
from . import models as M

REAL = ['panels/*.py', 'compiled panels/models/*.pyx, panels/multidomain/connections/*.pyx, panels/stiffener/models/*.pyx and panels/core (built from the '
        'working tree, instrumented at memory accesses)', 'numpy', 'scipy', 'composites', 'structsolve']


def gen_model(rng, kinds='smb', mn=(2, 3), **kw):
    k = rng.choice(kinds)
    if k == 's':
        return dict(kind='shell', spec=M.gen_shell(rng, mn, **kw))
    if k == 'm':
        return dict(kind='md', spec=M.gen_md(rng, mn=(2, min(3, mn[1])), **kw))
    return dict(kind='bay', spec=B.gen_bay(rng, mn=mn, **kw))


def make(model):
    """(object, parts)"""
    k, s = model['kind'], model['spec']
    if k == 'shell':
        o = M.make_shell(s)
        return o, [o]
    if k == 'md':
        return M.make_md(s)
    o = B.make_bay(s)
    return o, list(o.panels) + list(o.stiffeners)


def expect(model, op):
    return dict(shell=M.expect, md=M.expect_md, bay=B.expect_bay)[model['kind']](model['spec'], op)


def perform(obj, model, op, parts=None):
    if op.get('conn') is not None:
        return M.perform_md(obj, model['spec'], op, parts)
    return dict(shell=M.perform, md=M.perform_md, bay=B.perform_bay)[model['kind']](obj, model['spec'], op)


def gen_op(rng, model, kinds=None):
    return dict(shell=M.gen_op, md=M.gen_md_op, bay=B.gen_bay_op)[model['kind']](rng, model['spec'], kinds)


FIELD_KINDS = dict(shell=['uvw', 'strain', 'stress'], md=['uvw', 'strain', 'stress', 'uvw_gauss', 'strain_gauss', 'stress_gauss'], bay=['skin', 'stiff'])


def set_cores(obj, model, n):
    obj.out_num_cores = n


def plain(res):
    """What is compared and digested of a result."""
    return {k: v for k, v in res.items() if k[0] != '_'}


def where(model, op):
    return '%s.%s' % (model['kind'], op['op'])


# ------------------------------------------------------------------ smaller plans
def less_list(l):
    """Simpler lists: halves and single elements removed."""
    n = len(l)
    if n == 0:
        return
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield l[:i] + l[i + size:]
        if size == 1:
            break
        size = (size + 1) // 2 if size > 2 else 1


def simpler_shell(s):
    for key, v in (('loads', []), ('stack', [0]), ('r', None), ('offset', 0.), ('ortho', False), ('N', [0., 0., 0.]), ('Ncte', [0., 0., 0.])):
        if s.get(key) not in (v, None):
            yield dict(s, **{key: v})
    if (s['x1'], s['x2'], s['y1'], s['y2']) != (-1, 1, -1, 1):
        yield dict(s, x1=-1, x2=1, y1=-1, y2=1)
    if s['bc'] != M.DEFAULT_BC:
        yield dict(s, bc=dict(M.DEFAULT_BC))
    for k in ('m', 'n'):
        if s[k] > 2:
            yield dict(s, **{k: s[k] - 1})


def simpler_model(model):
    k, s = model['kind'], model['spec']
    if k == 'shell':
        for t in simpler_shell(s):
            yield dict(model, spec=t)
    elif k == 'md':
        if s['conn']:
            for l in [x for x in less_list(s['conn']) if x]:
                yield dict(model, spec=dict(s, conn=l))
        for i, p in enumerate(s['panels']):
            for t in simpler_shell(p):
                yield dict(model, spec=dict(s, panels=s['panels'][:i] + [t] + s['panels'][i + 1:]))
    else:
        for key in ('stiffs', 'forces_skin'):
            for l in less_list(s[key]):
                yield dict(model, spec=dict(s, **{key: l}))
        for k2 in ('m', 'n'):
            if s[k2] > 2:
                yield dict(model, spec=dict(s, **{k2: s[k2] - 1}))


def simpler_op(op):
    for k in ('form', 'half', 'var', 'embed', 'hvar', 'ccte', 'nx'):
        if op.get(k):
            o = dict(op)
            o.pop(k)
            if k == 'nx':
                o.pop('ny', None)
            yield o
    if op.get('NL'):
        yield dict(op, NL=False)
    if op.get('pts') and len(op['pts']) > 1:
        for l in less_list(op['pts']):
            if l:
                yield dict(op, pts=l)
    for k in ('gx', 'gy'):
        if op.get(k) and op[k] > 1:
            yield dict(op, **{k: op[k] // 2})


def simpler_list_of(lst, simpler):
    """Plans' lists: drop elements, then simplify each."""
    for l in less_list(lst):
        yield l
    for i, x in enumerate(lst):
        for y in simpler(x):
            yield lst[:i] + [y] + lst[i + 1:]


def with_(plan, **kw):
    p = copy.deepcopy(plan)
    p.update(kw)
    return p
