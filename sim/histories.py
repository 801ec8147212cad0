"""Histories of a user's session: operations, edits of the definition, overwritten results, on one or several models. After every operation
the result must be what the reference gives for the definition at that moment, and nothing the user holds may have changed."""
import copy
import gc

import numpy as np

from . import bays as B
from . import common as Z
from . import env
from . import models as M


# ------------------------------------------------------------------ edits of one shell
def gen_shell_edit(rng, s, inmd=False):
    """[(key, value, how)] for the shell described by s."""
    keys = ['r', 'stack', 'stack', 'plyt', 'laminaprop', 'rho', 'plyts', 'laminaprops', 'rhos', 'offset', 'm', 'n', 'nx', 'ny', 'bc', 'bc', 'N', 'Ncte', 'ortho',
            'load', 'load', 'noload']
    if inmd:
        keys += ['group']
    else:
        keys += ['a', 'b', 'flow', 'cores', 'x12', 'y12', 'flow']
    k = rng.choice(keys)
    num = len(s['stack'])
    if k in ('a', 'b'):
        ax = 'x' if k == 'a' else 'y'
        return [('loads', [], 'clear'), (ax + '1', -1, ''), (ax + '2', 1, ''), (k, s[k] * rng.choice([.6, 1.3]), '')]
    if k == 'x12':
        return [('x1', -1, ''), ('x2', 1, '')] if s['x1'] != -1 else [('x1', s['a'] * .2, ''), ('x2', s['a'] * .9, '')]
    if k == 'y12':
        return [('y1', -1, ''), ('y2', 1, '')] if s['y1'] != -1 else [('y1', s['b'] * .3, ''), ('y2', s['b'] * .8, '')]
    if k == 'r':
        return [('r', rng.choice([None, 0., s['a'] * 3, s['a'] * 6]), '')]
    if k == 'stack':
        how = rng.choice(['', 'inplace'])
        st = M.gen_stack(rng) if rng.random() < .5 else [rng.choice([0, 30, 45, -45, 60, 90]) for _ in range(num)]
        out = [('stack', st, how)]
        if len(st) != num:
            out += [(q, None, '') for q in ('plyts', 'laminaprops', 'rhos') if s[q] is not None]
        return out
    if k == 'plyt':
        return [('plyt', s['a'] * rng.choice([1e-3, 2e-3, 3e-3]), '')]
    if k == 'laminaprop':
        return [('laminaprop', rng.choice(M.PROPS), '')]
    if k == 'rho':
        return [('rho', rng.choice([1e-9, 2e-9, 5e-9]), '')]
    if k in ('plyts', 'laminaprops', 'rhos'):
        if s[k] is not None and rng.random() < .4:
            return [(k, None, '')]
        v = {'plyts': lambda: s['a'] * rng.choice([1e-3, 1.5e-3, 2e-3]), 'laminaprops': lambda: list(rng.choice(M.PROPS)), 'rhos': lambda: rng.choice([1e-9, 3e-9])}[k]
        return [(k, [v() for _ in range(num)], 'inplace' if s[k] is not None and rng.random() < .6 else '')]
    if k == 'offset':
        return [('offset', rng.choice([0., s['a'] * 1e-3, -s['a'] * 2e-3]), '')]
    if k in ('m', 'n'):
        q = 'nx' if k == 'm' else 'ny'
        if rng.random() < .3:
            # more terms than integration points: the library takes more points
            v = rng.randint(s[q] + 1, s[q] + 2) if s[q] < 7 else 8
            return [(k, v, ''), (q, max(v, 4), 'auto' if v > s[q] else '')]
        return [(k, rng.randint(2, min(s[q], 4)), ''), (q, max(s[q], 4), '')]
    if k in ('nx', 'ny'):
        lo = max(s['m' if k == 'nx' else 'n'], 4)
        return [(k, rng.randint(lo, max(8, lo + 2)), '')]
    if k == 'bc':
        bc = dict(s['bc'])
        for q in rng.sample(sorted(bc), rng.randint(1, 4)):
            bc[q] = 1. - bc[q]
        return [('bc', bc, '')]
    if k in ('N', 'Ncte'):
        return [(k, [round(rng.uniform(-50, 50), 3) if rng.random() < .7 else 0. for _ in range(3)], '')]
    if k == 'ortho':
        return [('ortho', not s['ortho'], '')]
    if k == 'cores':
        return [('cores', rng.randint(1, 7), '')]
    if k == 'group':
        return [('group', rng.choice(['g', 'h']), '')]
    if k == 'flow':
        f = B.gen_flow(rng)
        return [('flow', rng.choice('xy'), '')] + [(q, f[q], '') for q in ('beta', 'gamma', 'Mach', 'rho_air', 'V')]
    if k == 'load':
        return [('loads', s['loads'] + [M.gen_load(rng)], 'add')]
    return [('loads', [], rng.choice(['clear', 'assign']))]


LISTS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc')


def edit_shell(obj, spec, edits):
    for key, v, how in edits:
        if key == 'loads':
            if how == 'add':
                M.add_load(obj, spec, v[-1])
            else:
                for l in LISTS:
                    if how == 'clear':
                        del getattr(obj, l)[:]
                    else:
                        setattr(obj, l, [])
        elif key == 'group':
            obj.group = v
        elif how == 'auto':
            pass
        elif how == 'inplace':
            getattr(obj, key)[:] = M.tolib(key, v)
        else:
            M.set_attr(obj, key, v)
        spec[key] = copy.deepcopy(v)


def spec_edit(spec, edits):
    for key, v, how in edits:
        spec[key] = copy.deepcopy(v)


# ------------------------------------------------------------------ edits of the three kinds of model
def gen_edit(rng, model):
    k, s = model['kind'], model['spec']
    if k == 'shell':
        return dict(what='shell', edits=gen_shell_edit(rng, s))
    if k == 'md':
        r = rng.random()
        if r < .6:
            i = rng.randrange(len(s['panels']))
            return dict(what='panel', i=i, edits=gen_shell_edit(rng, s['panels'][i], True))
        if r < .75:
            o = list(s['order'])
            rng.shuffle(o)
            return dict(what='order', order=o, how=rng.choice(['', 'inplace']))
        if r < .9 and s['conn']:
            c = copy.deepcopy(s['conn'])
            i = rng.randrange(len(c))
            q = rng.random()
            f = c[i]['func']
            if q < .35 and len(c) > 1:
                del c[i]
            elif q < .7:
                c[i]['p1'], c[i]['p2'] = c[i]['p2'], c[i]['p1']
                if 'c1' in c[i]:
                    c[i]['c1'], c[i]['c2'] = c[i]['c2'], c[i]['c1']
            elif f[:2] in ('SS', 'BF'):
                c[i]['func'] = ('BF' if f[:2] == 'SS' else 'SS') + f[2:]
            return dict(what='conn', conn=c, how=rng.choice(['', 'inplace']))
        inline = [i for i, p in enumerate(s['panels']) if p['name'][0] == 'p' and i]
        i = rng.choice(inline)
        return dict(what='resize', i=i, key='a' if s['ax'] == 'x' else 'b', f=rng.choice([.7, 1.4]))
    r = rng.random()
    if r < .15:
        # the whole bay: its own attribute and that of each of its parts
        k = rng.choice(['m', 'n', 'bc', 'bc', 'a'] + (['r'] if s['r'] else []))
        v = dict(m=lambda: rng.randint(2, 4), n=lambda: rng.randint(2, 4), a=lambda: s['a'] * rng.choice([1.1, 1.3]), r=lambda: s['r'] * rng.choice([.8, 1.5]),
                 bc=lambda: dict(s['bc'], **{q: 1. - s['bc'][q] for q in rng.sample(M.BC, rng.randint(1, 3))}))[k]()
        return dict(what='bay', key=k, v=v)
    if r < .45:
        i = rng.randrange(len(s['panels']))
        q = rng.choice(['stack', 'plyt', 'rho', 'N', 'N', 'laminaprop', 'laminaprops', 'plyts'])
        p = s['panels'][i]
        k = len(p['stack'] or s['stack'])
        fix = p.get('plyts') or p.get('laminaprops')
        v = dict(laminaprop=lambda: rng.choice(M.PROPS), laminaprops=lambda: rng.choice([None, [rng.choice(M.PROPS) for _ in range(k)]]),
                 plyts=lambda: rng.choice([None, [s['a'] * rng.choice([1e-3, 2e-3]) for _ in range(k)]]),
                 stack=lambda: [rng.choice([0, 30, 45, 90]) for _ in range(k)] if fix else M.gen_stack(rng), plyt=lambda: s['a'] * rng.choice([1e-3, 2e-3, 3e-3]), rho=lambda: rng.choice([1e-9, 2e-9]),
                 N=lambda: [round(rng.uniform(-50, 50), 3) for _ in range(3)])[q]()
        return dict(what='skin', i=i, key=q, v=v)
    if r < .6:
        return dict(what='flow', v=dict(B.gen_flow(rng), flow=rng.choice('xy')))
    if r < .7:
        return dict(what='forces', v=[B.gen_force(rng, s['a'], s['b']) for _ in range(rng.randint(0, 2))], how=rng.choice(['', 'inplace']))
    if r < .8 or not s['stiffs']:
        free = [p['y2'] for p in s['panels'][:-1]]
        return dict(what='addstiff', st=B.gen_stiff(rng, s, rng.choice(free)))
    i = rng.randrange(len(s['stiffs']))
    st = s['stiffs'][i]
    if st['bstack'] and rng.random() < .3:
        key = rng.choice(['bstack', 'bplyt', 'bprops'] + (['brho'] if st['kind'] == '2d' else []))
        v = dict(bstack=lambda: [rng.choice([0, 30, 45, 90]) for _ in st['bstack']], bplyt=lambda: s['a'] * rng.choice([5e-4, 1e-3, 2e-3]),
                 bprops=lambda: [rng.choice(M.PROPS) for _ in st['bstack']], brho=lambda: rng.choice([1e-9, 4e-9]))[key]()
        return dict(what='stiff', i=i, key=key, v=v)
    if st['kind'] == '1d':
        key = rng.choice(['Fx', 'rho', 'fstack', 'fplyt', 'fprops', 'bf'] if st['fstack'] else ['rho'])
        v = dict(fprops=lambda: [rng.choice(M.PROPS) for _ in st['fstack']], Fx=lambda: rng.choice([-33., 12., None]), rho=lambda: rng.choice([1e-9, 4e-9]), fplyt=lambda: s['a'] * rng.choice([1e-3, 2e-3]),
                 fstack=lambda: [rng.choice([0, 30, 45, 90]) for _ in st['fstack']], bf=lambda: s['a'] * rng.choice([.03, .04]))[key]()
    elif st['fstack']:
        key = rng.choice(['N', 'forces', 'fstack', 'fplyt', 'fprops', 'mf', 'nf', 'bf', 'fbc', 'fbc', 'frho'])
        v = dict(fbc=lambda: B.gen_fbc(rng, st.get('fbc') or B.FLANGE_BC), frho=lambda: rng.choice([1e-9, 4e-9]), nf=lambda: rng.randint(2, 4),
                 fprops=lambda: [rng.choice(M.PROPS) for _ in st['fstack']], N=lambda: [round(rng.uniform(-50, 50), 3) for _ in range(3)], forces=lambda: [B.gen_force(rng, s['a'], st['bf'])], fplyt=lambda: s['a'] * rng.choice([1e-3, 2e-3]),
                 fstack=lambda: [rng.choice([0, 30, 45, 90]) for _ in st['fstack']], mf=lambda: rng.randint(2, 4), bf=lambda: s['a'] * rng.choice([.03, .04]))[key]()
    else:
        return dict(what='flow', v=dict(B.gen_flow(rng), flow=rng.choice('xy')))
    return dict(what='stiff', i=i, key=key, v=v)


def apply_edit(model, e, obj=None, parts=None):
    """Changes the spec, and the library object if one is given."""
    s, w = model['spec'], e['what']
    if w == 'shell':
        (edit_shell(obj, s, e['edits']) if obj is not None else spec_edit(s, e['edits']))
    elif w == 'panel':
        p = s['panels'][e['i']]
        (edit_shell(parts[e['i']], p, e['edits']) if obj is not None else spec_edit(p, e['edits']))
    elif w == 'order':
        s['order'] = list(e['order'])
        if obj is not None:
            new = [parts[i] for i in e['order']]
            if e['how']:
                obj.panels[:] = new
            else:
                obj.panels = new
    elif w == 'conn':
        s['conn'] = copy.deepcopy(e['conn'])
        if obj is not None:
            new = M.make_conn(s, parts)
            if e['how']:
                obj.conn[:] = new
            else:
                obj.conn = new
    elif w == 'resize':
        p = s['panels'][e['i']]
        p[e['key']] *= e['f']
        p['loads'] = []
        if obj is not None:
            o = parts[e['i']]
            for l in LISTS:
                del getattr(o, l)[:]
            setattr(o, e['key'], p[e['key']])
            obj.conn = M.make_conn(s, parts)
    elif w == 'skin':
        p = s['panels'][e['i']]
        p[e['key']] = copy.deepcopy(e['v'])
        if obj is not None:
            o = obj.panels[e['i']]
            if e['key'] == 'N':
                o.Nxx, o.Nyy, o.Nxy = e['v']
            else:
                setattr(o, e['key'], [] if e['v'] is None else M.tolib(e['key'], e['v']))
    elif w == 'bay':
        k, v = e['key'], copy.deepcopy(e['v'])
        s[k] = v
        if obj is not None:
            parts = [obj] + obj.panels + [o.base for o in obj.bladestiff2ds if o.base is not None]
            if k == 'a':
                parts += [o.flange for o in obj.bladestiff2ds if o.flange is not None]
            for o in parts:
                for q, x in (v.items() if k == 'bc' else [(k, v)]):
                    setattr(o, q, x)
                if k in ('m', 'n') and o is not obj:
                    setattr(o, dict(m='nx', n='ny')[k], 2 * v)
    elif w == 'flow':
        s.update(e['v'])
        if obj is not None:
            for k, v in e['v'].items():
                setattr(obj, k, v)
    elif w == 'forces':
        s['forces_skin'] = copy.deepcopy(e['v'])
        if obj is not None:
            if e['how']:
                obj.forces_skin[:] = copy.deepcopy(e['v'])
            else:
                obj.forces_skin = copy.deepcopy(e['v'])
    elif w == 'addstiff':
        s['stiffs'].append(copy.deepcopy(e['st']))
        if obj is not None:
            B.add_stiff(obj, s, e['st'])
    elif w == 'stiff':
        st = s['stiffs'][e['i']]
        k, v = e['key'], copy.deepcopy(e['v'])
        st[k] = v
        if k == 'fplyt':
            st['fplyts'] = None
        if k == 'bplyt':
            st['bplyts'] = None
        if obj is not None:
            o = obj.stiffeners[e['i']]
            if k in ('bstack', 'bplyt', 'bprops'):
                #NOTE the stiffener and its base both keep these; a blade of lines makes its base anew
                v = [v] * len(st['bstack']) if k == 'bplyt' else [tuple(q) for q in v] if k == 'bprops' else list(v)
                q = dict(bstack='stack', bplyt='plyts', bprops='laminaprops')[k]
                setattr(o, 'b' + q, v)
                setattr(o.base, q, v)
            elif k == 'brho':
                o.base.rho = v
            elif st['kind'] == '1d':
                if k == 'fplyt':
                    o.fplyts = [v] * len(st['fstack'])
                elif k == 'fprops':
                    o.flaminaprops = [tuple(q) for q in v]
                elif k == 'rho':
                    o.rho = v
                else:
                    setattr(o, k, v)
            elif k == 'N':
                o.flange.Nxx, o.flange.Nyy, o.flange.Nxy = v
            elif k == 'forces':
                o.forces_flange = v
            elif k == 'fstack':
                o.flange.stack = v
            elif k == 'fplyt':
                o.flange.plyts = [v] * len(st['fstack'])
            elif k == 'fprops':
                o.flange.laminaprops = [tuple(q) for q in v]
            elif k in ('mf', 'nf'):
                setattr(o.flange, k[0], v)
            elif k == 'frho':
                o.flange.rho = v
            elif k == 'fbc':
                for q, x in v.items():
                    setattr(o.flange, q, x)
            elif k == 'bf':
                o.flange.b = v
    else:
        raise env.HarnessError('edit %s' % w)


# ------------------------------------------------------------------ the histories
def part_spec(model, i):
    s = model['spec']
    if model['kind'] == 'md':
        return s['panels'][i]
    return B.pspec(s, s['panels'][i])


def gen_history(rng, kind, nsteps, mn=(2, 3)):
    models = []
    often = .33
    if rng.random() < .012:
        # for what is kept of the last so many requests
        nsteps, often = 250 if kind == 'shell' else 150, .5
    r = rng.random()
    mn = (mn[0], mn[1] + 3) if r < .2 else mn
    if kind == 'shell':
        for _ in range(rng.choice([1, 1, 2])):
            models.append(dict(kind='shell', spec=M.gen_shell(rng, mn)))
            if r > .93:
                M.longer(rng, models[-1]['spec'])
    elif kind == 'md':
        a = dict(kind='md', spec=M.gen_md(rng, (2, 3), mn))
        if r > .95:
            M.longer(rng, rng.choice(a['spec']['panels']))
        models.append(a)
        if rng.random() < .4:
            s = copy.deepcopy(a['spec'])
            o = list(s['order'])
            rng.shuffle(o)
            if len(o) > 2 and rng.random() < .6:
                o = o[:-1]
            conn = [c for c in s['conn'] if c['p1'] in o and c['p2'] in o]
            if conn:
                s['order'], s['conn'] = o, conn
                models.append(dict(kind='md', spec=s, shares=0))
    else:
        for _ in range(rng.choice([1, 1, 2])):
            models.append(dict(kind='bay', spec=B.gen_bay(rng, mn)))
            if r > .96:
                q = rng.choice('mn')
                models[-1]['spec'][q] = rng.randint(4, 12)
    plan = dict(models=copy.deepcopy(models), steps=[])
    cur = live(models)
    asked = {}
    for _ in range(nsteps):
        i = rng.randrange(len(cur))
        r = rng.random()
        if r < often:
            e = gen_edit(rng, cur[i])
            if e['what'] == 'resize' and len(cur) > 1 or e['what'] == 'order' and len(e['order']) != len(cur[i]['spec']['order']):
                continue
            apply_edit(cur[i], e)
            plan['steps'].append(dict(do='edit', m=i, e=e))
        elif r < often + .03 and not any(m.get('shares') is not None for m in cur):
            e = gen_edit(rng, cur[i]) if rng.random() < .6 else None
            if e:
                apply_edit(cur[i], e)
            plan['steps'].append(dict(do='renew', m=i, e=e, keep=rng.random() < .3))
        elif r < often + .07:
            plan['steps'].append(dict(do='scribble', m=i))
        elif r < often + .17 and kind != 'shell':
            if kind == 'md':
                j = rng.choice(cur[i]['spec']['order'])
                op = M.gen_op(rng, part_spec(cur[i], j))
            else:
                j = rng.randrange(len(cur[i]['spec']['panels']))
                op = dict(op=rng.choice(['kC', 'kM', 'kG']))
            plan['steps'].append(dict(do='part', m=i, i=j, op=op))
        else:
            op = None
            if asked.get(i) and rng.random() < .3:
                # asked again, of what the model has become
                op = copy.deepcopy(rng.choice(asked[i]))
                if op.get('c') is not None and rng.random() < .5:
                    op['c'] = rng.randrange(10 ** 6)
                if op.get('conn') or '_gauss' in op['op'] or kind == 'bay' and op['op'] == 'kG' and op.get('c') is not None:
                    op = None
                elif op.get('group') and op['group'] not in [p['group'] for p in cur[i]['spec']['panels']]:
                    op = None
            op = op or Z.gen_op(rng, cur[i])
            asked.setdefault(i, []).append(op)
            if kind == 'md' and op['op'] in ('kC', 'conn') and rng.random() < .25:
                n = len(cur[i]['spec']['conn'])
                op['conn'] = sorted(rng.sample(range(n), rng.randint(1, n)))
            plan['steps'].append(dict(do='op', m=i, op=op, fill=rng.choice([None, None, rng.getrandbits(60)])))
    return plan


def live(models):
    """Specs that evolve; those of shared panels are the same objects."""
    models = copy.deepcopy(models)
    for m in models:
        if m.get('shares') is not None:
            m['spec']['panels'] = models[m['shares']]['spec']['panels']
    return models


def build(models):
    objs = []
    for m in models:
        if m.get('shares') is not None:
            from panels.multidomain import MultiDomain
            parts = objs[m['shares']][1]
            md = MultiDomain([parts[i] for i in m['spec']['order']], M.make_conn(m['spec'], parts))
            md.out_num_cores = m['spec']['cores']
            objs.append((md, parts))
        else:
            objs.append(Z.make(m))
    return objs


class Held(object):
    """What the user holds: results and inputs, with private copies to compare with."""
    def __init__(self):
        self.items = []

    def add(self, label, raw):
        for a in arrays(raw):
            self.items.append((label, a, a.copy()))

    def changed(self):
        for label, a, c in self.items:
            if a.shape != c.shape or not np.array_equal(a, c, equal_nan=True):
                return label
        return None

    def forget(self, m):
        self.items = [i for i in self.items if not i[0].startswith('model %d ' % m)]

    def scribble(self, raw):
        ids = set()
        for a in arrays(raw):
            if a.flags.writeable and a.dtype.kind == 'f':
                a[...] = -7.25e9
                ids.add(id(a))
        self.items = [(l, a, a.copy() if id(a) in ids or any(np.shares_memory(a, b) for b in arrays(raw)) else c) for l, a, c in self.items]


def arrays(raw):
    import scipy.sparse as sp
    if raw is None:
        return
    if isinstance(raw, (list, tuple)):
        for r in raw:
            for a in arrays(r):
                yield a
    elif sp.issparse(raw):
        for n in ('data', 'indices', 'indptr', 'row', 'col'):
            a = getattr(raw, n, None)
            if isinstance(a, np.ndarray):
                yield a
    elif isinstance(raw, np.ndarray):
        yield raw


def conn_state(md):
    return [dict((k, id(v) if k in ('p1', 'p2') else v) for k, v in c.items()) for c in md.conn]


def run_history(plan, ctx, before=None, after=None):
    models = live(plan['models'])
    objs = build(models)
    held, last = Held(), {}
    nops, nedits = 0, 0
    for q, st in enumerate(plan['steps']):
        model = models[st['m']]
        obj, parts = objs[st['m']]
        do = st['do']
        if do == 'edit':
            apply_edit(model, st['e'], obj, parts)
            ctx.counters['edits'] += 1
            ctx.counters['edit %s' % (st['e']['what'] if 'edits' not in st['e'] else st['e']['edits'][-1][0])] += 1
            nedits += 1
            continue
        if do == 'renew':
            # the user drops the model and makes another one, which may well be placed where the other was
            if st['e']:
                apply_edit(model, st['e'])
            if not st['keep']:
                obj = parts = got = o = objs[st['m']] = None
                last.pop(st['m'], None)
                held.forget(st['m'])
                gc.collect()
            objs[st['m']] = Z.make(model)
            ctx.counters['models made anew'] += 1
            continue
        if do == 'scribble':
            if st['m'] in last:
                held.scribble(last[st['m']])
                ctx.faults['results overwritten by the caller'] += 1
            continue
        op = st['op']
        if do == 'part':
            spec = part_spec(model, st['i'])
            o = parts[st['i']] if model['kind'] == 'md' else obj.panels[st['i']]
            fn = lambda: M.perform(o, spec, op)
            exp = M.expect(spec, op)
            where = '%s.panel.%s' % (model['kind'], op['op'])
        else:
            fn = lambda: Z.perform(obj, model, op, parts)
            exp = Z.expect(model, op)
            where = Z.where(model, op)
        c0 = conn_state(obj) if model['kind'] == 'md' else None
        fill = st.get('fill')
        if fill is not None:
            with env.heap(fill=fill) as hp:
                got = fn()
            ctx.faults['fresh memory filled'] += hp.filled
        else:
            got = fn()
        ctx.counters['operations'] += 1
        ctx.counters['op %s' % where] += 1
        nops += 1
        ctx.observe(Z.plain(got))
        m = M.mismatch(got, exp)
        if m:
            ctx.violation('wrong-result', 'step %d: %s' % (q, m), where)
            return
        if c0 is not None and conn_state(obj) != c0:
            ctx.violation('definition-modified', 'step %d: connectivity' % q, where)
            return
        ch = held.changed()
        if ch:
            ctx.violation('earlier-result-changed', 'step %d changed the arrays returned by %s' % (q, ch), where)
            return
        held.add('model %d step %d (%s)' % (st['m'], q, where), got.get('_raw'))
        last[st['m']] = got.get('_raw')
        if after is not None:
            after(q, st, model, obj, got, where)
            if ctx.violations:
                return
    ctx.nontrivial = nops >= 2 and nedits >= 1
    ctx.counters['histories'] += 1


def shrink_history(plan):
    for l in Z.less_list(plan['steps']):
        if any(s['do'] in ('op', 'part') for s in l):
            yield Z.with_(plan, steps=l)
    if len(plan['models']) > 1:
        used = {s['m'] for s in plan['steps']}
        if used == {0}:
            yield Z.with_(plan, models=plan['models'][:1])
    for i, s in enumerate(plan['steps']):
        if s.get('fill') is not None:
            yield Z.with_(plan, steps=plan['steps'][:i] + [dict(s, fill=None)] + plan['steps'][i + 1:])
        if 'op' in s:
            for o in Z.simpler_op(s['op']):
                yield Z.with_(plan, steps=plan['steps'][:i] + [dict(s, op=o)] + plan['steps'][i + 1:])
    for i, m in enumerate(plan['models']):
        if m.get('shares') is None and not any(x.get('shares') is not None for x in plan['models']):
            for t in Z.simpler_model(m):
                yield Z.with_(plan, models=plan['models'][:i] + [t] + plan['models'][i + 1:])
