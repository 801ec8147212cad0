"""Requests that do not fit the definition of that moment: they are refused, nothing is computed with what happens to be in memory, and nothing changes."""
import copy

import numpy as np

from .. import bays as B
from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M
from . import f08

RUNS = dict(quick=5000, thorough=60000)
WALL = dict(quick=55, thorough=780)
RULE = ('one simulated session = one seed: a model, operations and edits, and in between requests that do not fit the definition of that moment (amplitudes kept from before, of another '
        'model or shape; per-ply data of another stack; fields and constitutive arrays of other grids; matrices too small; more terms or points than there are; connections with panels '
        'that are not there), under fresh memory whose contents the seed decides; non-trivial when at least one misfit was asked for and one operation followed')
DISTINCT = 'distinct triples of operation, misfit and form of the misfit, and distinct digests of the results'
REAL = Z.REAL
STUB = ['contents of fresh memory (libsim)', 'reference: independent dense NumPy model']
ASSUME = ['a request that does not fit may be refused with any exception']
TIME = 'no clock in the simulated code; time is measured in operations, see counters'

C_FORMS = ['short', 'long', 'half', 'empty', 'none', 'row', 'col', 'fold', 'other']
LAM_OPS = dict(shell=['kC', 'kG', 'kM', 'kT', 'fint', 'stress'], md=['kC', 'kG', 'kM', 'kT', 'fint', 'stress', 'conn'], bay=['kC', 'kG', 'kM'])


def preload():
    M.kappa_probe()


def wrong_c(n, form, k, seed):
    if form == 'none':
        return None
    size = dict(short=n - 1 - k % 4, long=n + 1 + k, half=n // 2, empty=0, other=n + 3 * (k - 6) if k != 6 else n + 3).get(form, n)
    c = M.vec(seed, max(size, 0), 1e-3)
    if form == 'row':
        return c.reshape(1, -1)
    if form == 'col':
        return c.reshape(-1, 1)
    if form == 'fold':
        return c.reshape(3, -1)
    return c


# ------------------------------------------------------------------ generation
def numerical(rng, model, op):
    """An operation for which the integration points matter."""
    if model['kind'] == 'shell':
        op = M.gen_op(rng, model['spec'], ['kC', 'kG', 'kT', 'fint'])
        op['c'] = rng.randrange(10 ** 6)
    else:
        op = M.gen_md_op(rng, model['spec'], ['kC', 'kG', 'kT', 'fint'])
        op['c'] = rng.randrange(10 ** 6)
    op.pop('nx', None)
    op.pop('ny', None)
    op.pop('var', None)
    op.pop('embed', None)
    return op


def gen_bad(rng, model):
    kind, s = model['kind'], model['spec']
    r = rng.random()
    k = rng.randint(0, 12)
    if r < .4:
        ops = dict(shell=['kC', 'kG', 'kT', 'fint', 'uvw', 'strain', 'stress'], md=['kC', 'kG', 'kT', 'fint', 'uvw', 'strain', 'stress', 'uvw_gauss', 'strain_gauss', 'stress_gauss'],
                   bay=['kG', 'skin', 'stiff'])[kind]
        op = Z.gen_op(rng, model, [rng.choice(ops)])
        op.pop('embed', None)
        form = rng.choice(C_FORMS)
        if form == 'none' and op['op'][0] == 'k':
            form = 'short'
        b = dict(what='c', op=op, form=form, k=k, seed=rng.randrange(10 ** 6))
        if kind == 'bay' and op['op'] == 'kG':
            b['form'] = rng.choice(['short', 'long', 'half', 'row', 'col', 'other', 'empty'])
        if kind == 'shell' and op['op'] == 'kC' and rng.random() < .2:
            b['cte'] = True
        return b
    if r < .62:
        if kind == 'bay' and rng.random() < .5:
            t, q = rng.choice([('bay', 'm'), ('bay', 'n'), ('panel', 'm'), ('panel', 'n')])
            i = rng.randrange(len(s['panels']))
            return dict(what='terms', t=t, i=i, key=q, v=s[q] + rng.choice([1, 2, -1]), op=Z.gen_op(rng, model, [rng.choice(['kC', 'kG', 'kM'])]))
        parts = s['panels'] if kind != 'shell' else [s]
        idx = [i for i in (s['order'] if kind == 'md' else range(len(parts)))]
        i = rng.choice(idx)
        q = rng.choice(['plyts', 'laminaprops', 'rhos', 'stack', 'm', 'n', 'nx', 'ny'] if kind != 'bay' else ['plyts', 'laminaprops', 'rhos'])
        op = Z.gen_op(rng, model, [rng.choice(LAM_OPS[kind])])
        if op.get('group') is not None:
            op['group'] = parts[i]['group']
        spec = part(model, i)
        num = len(spec['stack'])
        if q in ('m', 'n'):
            return dict(what='def', i=i, key=q, v=rng.choice([31, 32, 40, 0]), op=op)
        if q in ('nx', 'ny'):
            return dict(what='def', i=i, key=q, v=rng.choice([65, 66, 80]), op=numerical(rng, model, op))
        if q == 'stack':
            if not (spec['plyts'] or spec['laminaprops'] or spec['rhos']):
                q = 'plyts'
            else:
                st = list(spec['stack']) + [rng.choice([0, 45, 90])] * rng.choice([1, 2]) if num == 1 or rng.random() < .5 else list(spec['stack'])[:-1]
                return dict(what='def', i=i, key='stack', v=st, op=op)
        n = rng.choice([x for x in (num - 1, num + 1, 2 * num, num - 2) if x > 0])
        v = {'plyts': spec['a'] * 1e-3, 'laminaprops': list(rng.choice(M.PROPS)), 'rhos': 1e-9}[q]
        return dict(what='def', i=i, key=q, v=[copy.deepcopy(v) for _ in range(n)], op=op, keep=rng.random() < .4)
    if kind == 'md' and s['conn']:
        q = rng.choice(['foreign', 'self', 'func', 'missing', 'foreign', 'self'])
        return dict(what='conn', form=q, j=rng.randrange(len(s['conn'])), side=rng.choice(['p1', 'p2']), place=rng.choice(['arg', 'md', 'md']), at=rng.randint(0, 3),
                    op=M.gen_md_op(rng, s, [rng.choice(['kC', 'conn', 'kT', 'fint'])]))
    if kind == 'bay':
        fl = B.flange2d(s)
        if fl and rng.random() < .5:
            return dict(what='region', op=B.gen_bay_op(rng, s, ['stiff']), form=rng.choice(['index', 'region']))
        return dict(what='pts', op=B.gen_bay_op(rng, s, ['skin', 'stiff']), n1=rng.randint(1, 6), n2=rng.randint(1, 6))
    if kind == 'md':
        return dict(what='c', op=M.gen_md_op(rng, s, [rng.choice(['fint', 'uvw', 'strain', 'stress'])]), form='other', k=k, seed=k)
    q = rng.choice(['pts', 'ABD', 'ABD', 'h', 'size', 'size', 'points'])
    if q == 'pts':
        return dict(what='pts', op=M.gen_op(rng, s, ['uvw', 'strain', 'stress']), n1=rng.randint(1, 6), n2=rng.randint(1, 6))
    if q == 'ABD':
        op = M.gen_op(rng, s, ['kC', 'kG', 'kT', 'fint'])
        op.update(c=rng.randrange(10 ** 6), var=True)
        op.pop('embed', None)
        return dict(what='ABD', op=op, form=rng.choice(['nx+1', 'ny+1', 'nx-1', 'ny-1', 'swap', 'flat', '6x5', '5x5', '8x8']))
    if q == 'h':
        return dict(what='h', op=dict(M.gen_op(rng, s, ['kM']), hvar=True), form=rng.choice(['nx+1', 'ny-1', 'nx-1', 'ny+1', 'other rho', 'h only']))
    if q == 'size':
        op = M.gen_op(rng, s, ['kC', 'kG', 'kT', 'kM', 'kA', 'fint'])
        op.pop('embed', None)
        return dict(what='size', op=op, pre=rng.choice([0, 3, 7, 12]), lack=rng.randint(1, 12))
    op = numerical(rng, model, None)
    return dict(what='points', op=op, v=rng.choice([65, 66, 100]), axis=rng.choice(['nx', 'ny']))


def part(model, i):
    return model['spec'] if model['kind'] == 'shell' else H.part_spec(model, i)


def gen(rng, tier, i):
    model = Z.gen_model(rng, 'sssmmb', mn=(2, 3))
    cur = copy.deepcopy(model)
    steps = []
    for _ in range(rng.randint(3, 8) if tier == 'quick' else rng.randint(3, 24)):
        r = rng.random()
        if r < .25:
            e = H.gen_edit(rng, cur)
            H.apply_edit(cur, e)
            steps.append(dict(do='edit', e=e))
        elif r < .75:
            steps.append(dict(do='bad', b=gen_bad(rng, cur), fill=rng.choice([None, rng.getrandbits(60)])))
        else:
            steps.append(dict(do='op', op=Z.gen_op(rng, cur)))
    steps.append(dict(do='bad', b=gen_bad(rng, cur), fill=rng.choice([None, rng.getrandbits(60)])))
    steps.append(dict(do='op', op=Z.gen_op(rng, cur)))
    return dict(model=model, steps=steps)


# ------------------------------------------------------------------ the request
class patched(object):
    """The vector of constants the request uses."""
    def __init__(self, kind, c):
        self.kind, self.c = kind, c

    def __enter__(self):
        self.keep = M.op_c, M.md_c, B.bay_c
        f = lambda spec, op, size=None: self.c
        M.op_c = M.md_c = B.bay_c = f

    def __exit__(self, *a):
        M.op_c, M.md_c, B.bay_c = self.keep


class Inapplicable(Exception):
    pass


def size_of(model):
    k, s = model['kind'], model['spec']
    return M.geo(s).size if k == 'shell' else M.md_layout(s)[1] if k == 'md' else B.layout(s)[2]


def request(model, obj, parts, b):
    """(function to call, function that undoes what was set up)"""
    kind, s, op, w = model['kind'], model['spec'], b['op'], b['what']
    n = size_of(model)
    nothing = lambda: None
    if w == 'c':
        c = wrong_c(n, b['form'], b['k'], b['seed'])
        if b['form'] in ('short', 'half', 'other') and (c is None or c.size == n):
            raise Inapplicable
        if b.get('cte'):
            return lambda: obj.calc_kC(c_cte=c, NLgeom=True), nothing

        def f():
            with patched(kind, c):
                return Z.perform(obj, model, op, parts)
        return f, nothing
    if w == 'terms':
        o = obj if b['t'] == 'bay' else obj.panels[b['i']]
        old = getattr(o, b['key'])
        if b['v'] == s[b['key']] or b['v'] < 1:
            raise Inapplicable
        setattr(o, b['key'], b['v'])
        o2 = copy.deepcopy(model)
        if b['t'] == 'bay':
            o2['spec'][b['key']] = b['v']
        return lambda: Z.perform(obj, o2, op, parts), lambda: setattr(o, b['key'], old)
    if w == 'def':
        o = obj if kind == 'shell' else parts[b['i']] if kind == 'md' else obj.panels[b['i']]
        spec = part(model, b['i'])
        key = b['key']
        num = len(spec['stack'])
        if key in ('plyts', 'laminaprops', 'rhos') and len(b['v']) == num:
            raise Inapplicable
        if key == 'stack' and (len(b['v']) == num or not (spec['plyts'] or spec['laminaprops'] or spec['rhos'])):
            raise Inapplicable
        if op.get('group') is not None and (spec['group'] != op['group'] or b['i'] not in s['order']):
            raise Inapplicable
        if kind == 'md' and b['i'] not in s['order']:
            raise Inapplicable
        if op['op'] == 'conn' and not any(b['i'] in (c['p1'], c['p2']) and (key in ('m', 'n') or c['func'] != 'SB_TSL') for c in s['conn']):
            raise Inapplicable
        old = getattr(o, key)
        m2 = copy.deepcopy(model)
        t = m2['spec'] if kind == 'shell' else m2['spec']['panels'][b['i']]
        if key in ('m', 'n'):
            t[key] = max(b['v'], 1)
        elif key in ('nx', 'ny'):
            t[key] = b['v']
        setattr(o, key, M.tolib(key, b['v']))
        if op.get('var') or op.get('hvar'):
            op = {q: x for q, x in op.items() if q not in ('var', 'hvar')}
        return lambda: Z.perform(obj, m2, op, parts), lambda: setattr(o, key, old if key in ('m', 'n', 'nx', 'ny') or kind == 'bay' or b.get('keep') else M.tolib(key, copy.deepcopy(spec[key])))
    if w == 'conn':
        if b['j'] >= len(s['conn']):
            raise Inapplicable
        cs = M.make_conn(s, parts)
        d = dict(cs[b['j']])
        if b['form'] == 'foreign':
            inn = [parts[i] for i in s['order']]
            twin = copy.deepcopy(d[b['side']])
            d[b['side']] = twin
        elif b['form'] == 'self':
            d['p1' if b['side'] == 'p2' else 'p2'] = d[b['side']]
        elif b['form'] == 'func':
            d['func'] = 'SSzcte'
        else:
            ks = [q for q in d if q[1:4] == 'cte']
            if not ks:
                raise Inapplicable
            del d[ks[b['at'] % len(ks)]]
        cs.insert(min(b['at'], len(cs)), d)
        c = M.md_c(s, op)
        if b['place'] == 'arg' and op['op'] in ('kC', 'conn', 'kT'):
            fs = dict(kC=lambda: obj.calc_kC(conn=cs, c=c, silent=True), kT=lambda: obj.calc_kT(c=c, conn=cs, silent=True), conn=lambda: obj.get_kC_conn(conn=cs))
            return fs[op['op']], nothing
        old = obj.conn
        obj.conn = cs

        def back():
            obj.conn = old
        o2 = {q: x for q, x in op.items() if q != 'conn'}
        return lambda: Z.perform(obj, model, o2, parts), back
    if w == 'region':
        c = B.bay_c(s, op)
        if b['form'] == 'index':
            return lambda: obj.uvw_stiffener(c, len(s['stiffs']), region='flange', gridx=3, gridy=3), nothing
        fl = B.flange2d(s)
        if op['fi'] >= len(fl):
            raise Inapplicable
        return lambda: obj.uvw_stiffener(c, s['stiffs'].index(fl[op['fi']]), region='skin', gridx=3, gridy=3), nothing
    if w == 'pts':
        if b['n1'] == b['n2']:
            raise Inapplicable
        x, y = np.linspace(0., s['a'], b['n1']), np.linspace(0., .01 * s['b'], b['n2'])
        if kind == 'bay':
            c = B.bay_c(s, op)
            if op['op'] == 'skin':
                return lambda: obj.uvw_skin(c, xs=x, ys=y), nothing
            fl = B.flange2d(s)
            if op['fi'] >= len(fl):
                raise Inapplicable
            return lambda: obj.uvw_stiffener(c, s['stiffs'].index(fl[op['fi']]), region='flange', xs=x, ys=y), nothing
        kw = {} if op['op'] == 'uvw' else dict(NLgeom=op['NL'])
        return lambda: getattr(obj, op['op'])(M.op_c(s, op), xs=x, ys=y, **kw), nothing
    nx, ny = op.get('nx') or s['nx'], op.get('ny') or s['ny']
    c = M.op_c(s, op)
    kw = {}
    if w in ('ABD', 'h'):
        q = b['form']
        gx, gy = dict([('nx+1', (nx + 1, ny)), ('ny+1', (nx, ny + 1)), ('nx-1', (nx - 1, ny)), ('ny-1', (nx, ny - 1)), ('swap', (ny, nx))]).get(q, (nx, ny))
        if op.get('nx'):
            kw.update(nx=op['nx'], ny=op['ny'])
    if w == 'ABD':
        A = M.lam(s)[0]
        if q == 'swap' and nx == ny:
            raise Inapplicable
        if q == 'flat':
            arr = np.tile(A, (nx * ny, 1, 1))
        elif q in ('6x5', '5x5', '8x8'):
            i, j = int(q[0]), int(q[2])
            arr = np.ones((nx, ny, i, j))
        else:
            arr = np.tile(A, (gx, gy, 1, 1))
        kw['ABDnxny'] = np.ascontiguousarray(arr)
        if op['op'] == 'fint':
            return lambda: obj.calc_fint(c, **kw), nothing
        return lambda: getattr(obj, 'calc_' + op['op'])(c=c, **kw), nothing
    if w == 'h':
        h = np.full((gx, gy), 1e-3)
        if q == 'h only':
            kw['h_nxny'] = np.full((nx + 1, ny), 1e-3)
        elif q == 'other rho':
            kw['h_nxny'], kw['rho_nxny'] = h, np.full((nx, ny + 1), 1e-9)
        else:
            kw['h_nxny'], kw['rho_nxny'] = h, h * 1e-6
        return lambda: obj.calc_kM(**kw), nothing
    if w == 'size':
        pre = b['pre']
        size = pre + n - min(b['lack'], n - 1)
        kw['size'] = size
        if op['op'] == 'fint':
            kw['col0'] = pre
            return lambda: obj.calc_fint(np.zeros(size), **kw), nothing
        kw['row0'] = kw['col0'] = pre
        if c is not None:
            kw['c'] = np.zeros(size)
        return lambda: getattr(obj, 'calc_' + op['op'])(**kw), nothing
    if w == 'points':
        kw[b['axis']] = b['v']
        if op['op'] == 'fint':
            return lambda: obj.calc_fint(c, **kw), nothing
        return lambda: getattr(obj, 'calc_' + op['op'])(c=c, **kw), nothing
    raise env.HarnessError('misfit %s' % w)


def label(b):
    return '%s%s' % (b['what'], ' ' + str(b.get('form') or b.get('key') or b.get('axis') or '') if (b.get('form') or b.get('key') or b.get('axis')) else '')


def run(plan, ctx):
    model = copy.deepcopy(plan['model'])
    obj, parts = Z.make(model)
    held = H.Held()
    bad = None
    for q, st in enumerate(plan['steps']):
        if st['do'] == 'edit':
            H.apply_edit(model, st['e'], obj, parts)
            continue
        if st['do'] == 'bad':
            b = st['b']
            where = Z.where(model, b['op'])
            before = f08.snapshot(model, obj, parts)
            try:
                fn, undo = request(model, obj, parts, b)
            except Inapplicable:
                ctx.counters['misfits that became fits'] += 1
                continue
            got = None
            try:
                if st.get('fill') is not None:
                    with env.heap(fill=st['fill']) as hp:
                        got = fn()
                else:
                    got = fn()
                exc = None
            except env.HarnessError:
                raise
            except Exception as e:  # noqa
                exc = type(e).__name__
            undo()
            ctx.faults['misfit: %s' % label(b)] += 1
            ctx.counters['misfit for %s' % where] += 1
            ctx.hashes.append('%s %s' % (where, label(b)))
            ctx.observe(exc or 'accepted')
            if exc is None:
                ctx.violation('misfit-accepted', 'step %d: %s: %s' % (q, label(b), {k: v for k, v in b.items() if k != 'op'}), where)
                return
            d = f08.differ(before, f08.snapshot(model, obj, parts))
            if d:
                ctx.violation('definition-modified', 'step %d: refused %s: %s' % (q, label(b), d), where)
                return
            ch = held.changed()
            if ch:
                ctx.violation('earlier-result-changed', 'step %d: refused %s changed the arrays returned by %s' % (q, label(b), ch), where)
                return
            bad = (q, label(b), where)
            continue
        op = st['op']
        where = Z.where(model, op)
        got = Z.perform(obj, model, op, parts)
        ctx.counters['operations'] += 1
        ctx.observe(Z.plain(got))
        m = M.mismatch(got, Z.expect(model, op))
        if m:
            ctx.violation('wrong-result-after-a-refusal' if bad else 'wrong-result', 'step %d: %s%s' % (q, m, ' (last refusal: step %d, %s in %s)' % bad if bad else ''), where)
            return
        held.add('step %d (%s)' % (q, where), got.get('_raw'))
        ctx.nontrivial = ctx.nontrivial or bad is not None
    ctx.counters['sessions'] += 1


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if l:
            yield Z.with_(plan, steps=l)
    for i, s in enumerate(plan['steps']):
        def rep(**kw):
            return Z.with_(plan, steps=plan['steps'][:i] + [dict(s, **kw)] + plan['steps'][i + 1:])
        if s.get('fill') is not None:
            yield rep(fill=None)
        if 'op' in s:
            for o in Z.simpler_op(s['op']):
                yield rep(op=o)
    for m in Z.simpler_model(plan['model']):
        yield Z.with_(plan, model=m)
