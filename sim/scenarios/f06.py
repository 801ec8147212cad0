"""Saving and loading: what is loaded, in the same process or in a restarted one, is the model as it was when it was last saved under that name."""
import copy
import os
import pickle
import struct

import numpy as np

from .. import bays as B
from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M

RUNS = dict(quick=3500, thorough=60000)
WALL = dict(quick=60, thorough=780)
RULE = ('one simulated session = one seed: models, operations, edits, saves under chosen names, loads in the same process or after a restart that keeps only the files; '
        'non-trivial when something was loaded and evaluated')
DISTINCT = 'distinct digests of all the results of a session'
REAL = Z.REAL + ['pickle', 'files in a scratch directory']
STUB = ['process restart (a process forked before any model was created, which sees only the files)', 'contents of fresh memory (libsim)',
        'reference: independent dense NumPy model']
ASSUME = ['load functions of models that are saved can be pickled']
TIME = 'no clock in the simulated code; time is measured in steps, see counters'

NAMES = ['wing', 'sub/wing', 'a.b.c', 'r\u00e9sultat \u4e2d', 'x y', 'part.Shell.v2', 'part.StiffPanelBay.v2', 'Shell', './rel', 'wing.pickle', 'Shell.wing']


def preload():
    M.kappa_probe()


def gen(rng, tier, i):
    models = [Z.gen_model(rng, 'ssbbm', mn=(2, 3)) for _ in range(rng.choice([1, 1, 2]))]
    plan = dict(models=copy.deepcopy(models), steps=[])
    slots = copy.deepcopy(models)
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    saved = {}
    for _ in range(rng.randint(5, 14) if tier == 'quick' else rng.randint(5, 40)):
        j = rng.randrange(len(slots))
        mo = slots[j]
        r = rng.random()
        if r < .2:
            e = H.gen_edit(rng, mo)
            H.apply_edit(mo, e)
            plan['steps'].append(dict(do='edit', s=j, e=e))
        elif r < .4 or not saved and r < .5:
            plan['steps'].append(dict(do='op', s=j, op=Z.gen_op(rng, mo), fill=rng.choice([None, None, rng.getrandbits(60)])))
        elif r < .68 or not saved:
            if mo['kind'] == 'md':
                nm = rng.choice(names)
                for q, p in enumerate(mo['spec']['panels']):
                    saved['shell', '%s-%d' % (nm, q)] = copy.deepcopy(dict(kind='shell', spec=p))
                saved['md', nm] = copy.deepcopy(mo)
                plan['steps'].append(dict(do='save', s=j, name=nm))
            else:
                nm = rng.choice(names)
                # panels of an assembly saved one by one would have to be tracked: keep these names apart
                saved[mo['kind'], nm] = copy.deepcopy(mo)
                plan['steps'].append(dict(do='save', s=j, name=nm))
        elif r < .72 and len(slots) < 6:
            slots.append(copy.deepcopy(mo))
            plan['steps'].append(dict(do='clone', s=j))
        else:
            kind, nm = rng.choice(sorted(k for k in saved if k[0] != 'shell' or '-' not in k[1]))
            src = saved[kind, nm]
            if r < .86 and len(slots) < 6:
                slots.append(copy.deepcopy(src))
                plan['steps'].append(dict(do='load', kind=kind, name=nm, ext=rng.random() < .5))
                plan['steps'].append(dict(do='op', s=len(slots) - 1, op=Z.gen_op(rng, src), fill=None))
            else:
                plan['steps'].append(dict(do='restart', kind=kind, name=nm, ext=rng.random() < .5, ops=[Z.gen_op(rng, src) for _ in range(rng.randint(1, 3))]))
    if saved:
        k = sorted(k for k in saved if k[0] != 'shell' or '-' not in k[1])
        kind, nm = rng.choice(k)
        plan['steps'].append(dict(do='restart', kind=kind, name=nm, ext=rng.random() < .5, ops=[Z.gen_op(rng, saved[kind, nm])]))
    return plan


# ------------------------------------------------------------------ restarted processes
class Restarts(object):
    """A process that exists from before the models; every request is served by a new copy of it."""
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                while True:
                    req = recv(r1)
                    if req is None:
                        break
                    r, w = os.pipe()
                    k = os.fork()
                    if k == 0:
                        try:
                            try:
                                fn, a = pickle.loads(req)
                                out = ('ok', fn(*a))
                            except BaseException as e:  # noqa
                                import traceback
                                from ..runner import library_frames
                                out = ('exc', type(e).__name__, str(e), library_frames(e), traceback.format_exc()[-1500:])
                            send(w, pickle.dumps(out))
                        finally:
                            os._exit(0)
                    os.close(w)
                    ans = recv(r)
                    os.close(r)
                    os.waitpid(k, 0)
                    send(w2, ans or pickle.dumps(('dead',)))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def call(self, fn, *a):
        send(self.w, pickle.dumps((fn, a)))
        ans = recv(self.r)
        if ans is None:
            raise env.HarnessError('the restarted process is gone')
        return pickle.loads(ans)


def send(fd, b):
    b = struct.pack('<Q', len(b)) + b
    n = 0
    while n < len(b):
        n += os.write(fd, b[n:n + (1 << 16)])


def recv(fd):
    def take(n):
        out = b''
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                return None
            out += x
        return out
    h = take(8)
    return None if h is None else take(struct.unpack('<Q', h)[0])


# ------------------------------------------------------------------ what is saved
DEF = dict(shell=M.ATTRS + M.BC + ['name', 'group', 'x0', 'y0', 'out_num_cores', 'Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'force_orthotropic_laminate',
                                   'laminaprops', 'rhos', 'plyts', 'aeromu', 'speed_sound'],
           bay=['a', 'b', 'r', 'm', 'n', 'stack', 'plyt', 'rho', 'laminaprop', 'name', 'out_num_cores', 'model', 'forces_skin'] + list(B.FLOW) + M.BC)


def listed(v):
    return [listed(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else v


def definition(obj, kind):
    out = {k: listed(getattr(obj, k, None)) for k in DEF[kind]}
    out['r'] = out['r'] or None
    if kind == 'shell':
        # as many integration points as terms, whether the library already took them or not
        out['nx'], out['ny'] = max(out['nx'], out['m']), max(out['ny'], out['n'])
        for l in H.LISTS:
            out[l] = [[[x(t * obj.a) for t in (.1, .5, .7)] if callable(x) else x for x in row] for row in getattr(obj, l)]
        # what the library derives from the rest is its own business
        for k in ('plyts', 'laminaprops', 'rhos', 'aeromu'):
            out.pop(k)
    else:
        out['npanels'] = len(obj.panels)
        out['stiffeners'] = [type(s).__name__ for s in obj.stiffeners]
        out['nforces'] = [listed(getattr(s, 'forces_flange', None)) for s in obj.stiffeners]
    return out


def loader(kind):
    if kind == 'bay':
        from panels.stiffpanelbay.stiffpanelbay import load
    else:
        from panels.shell import load
    return load


EXT = dict(shell='.Shell', bay='.StiffPanelBay')


def do_load(kind, name, ext, model):
    """(object, parts)"""
    if kind == 'md':
        from panels.multidomain import MultiDomain
        s = model['spec']
        parts = [do_load('shell', '%s-%d' % (name, q), ext, None)[0] for q in range(len(s['panels']))]
        md = MultiDomain([parts[i] for i in s['order']], M.make_conn(s, parts))
        md.out_num_cores = s['cores']
        return md, parts
    o = loader(kind)(name + (EXT[kind] if ext else ''))
    return o, ([o] if kind == 'shell' else list(o.panels) + list(o.stiffeners))


def do_save(obj, parts, kind, name):
    if kind == 'md':
        for q, p in enumerate(parts):
            p.name = '%s-%d' % (name, q)
            p.save()
    else:
        obj.name = name
        obj.save()


def in_restart(kind, name, ext, model, ops):
    obj, parts = do_load(kind, name, ext, model)
    d = definition(obj, kind) if kind != 'md' else None
    out = []
    for op in ops:
        out.append(Z.plain(Z.perform(obj, model, op, parts)))
    return d, out


def run(plan, ctx):
    rs = Restarts()
    os.mkdir('sub')
    slots = []
    for m in copy.deepcopy(plan['models']):
        o, p = Z.make(m)
        slots.append((m, o, p))
    saved = {}
    held = H.Held()
    loaded = 0
    for q, st in enumerate(plan['steps']):
        do = st['do']
        ctx.counters[do] += 1
        if do in ('edit', 'op', 'save', 'clone'):
            model, obj, parts = slots[st['s']]
            kind = model['kind']
        if do == 'edit':
            H.apply_edit(model, st['e'], obj, parts)
        elif do == 'op':
            with env.heap(fill=st.get('fill')):
                got = Z.perform(obj, model, st['op'], parts)
            ctx.observe(Z.plain(got))
            m = M.mismatch(got, Z.expect(model, st['op']))
            if m:
                ctx.violation('wrong-result', 'step %d: %s' % (q, m), Z.where(model, st['op']))
                return
            held.add('step %d' % q, got.get('_raw'))
            if st['s'] >= len(plan['models']):
                loaded += 1
        elif do == 'clone':
            m2 = copy.deepcopy(model)
            memo = {}
            o2 = copy.deepcopy(obj, memo)
            p2 = [memo.get(id(p), p) for p in parts]
            slots.append((m2, o2, p2))
        elif do == 'save':
            before = definition(obj, kind) if kind != 'md' else None
            do_save(obj, parts, kind, st['name'])
            if kind != 'md':
                before['name'] = st['name']
                after = definition(obj, kind)
                if differ(before, after):
                    ctx.violation('definition-modified', 'step %d: saving changed %s' % (q, differ(before, after)), kind + '.save')
                    return
            else:
                before = None
            saved[kind, st['name']] = (copy.deepcopy(model), before)
            ch = held.changed()
            if ch:
                ctx.violation('earlier-result-changed', 'step %d changed the arrays returned by %s' % (q, ch), kind + '.save')
                return
        elif do in ('load', 'restart'):
            kind = st['kind']
            model, before = copy.deepcopy(saved[kind, st['name']])
            if do == 'load':
                obj, parts = do_load(kind, st['name'], st['ext'], model)
                slots.append((model, obj, parts))
                d = definition(obj, kind) if kind != 'md' else None
            else:
                ctx.faults['process restarts'] += 1
                ans = rs.call(in_restart, kind, st['name'], st['ext'], model, st['ops'])
                if ans[0] == 'exc':
                    if not ans[3] and ans[1] in ('SystemExit', 'HarnessError'):
                        raise env.HarnessError(ans[4])
                    ctx.violation('cannot-use-after-restart', 'step %d: %s: %s %s' % (q, ans[1], ans[2], ans[3][:3]), kind + '.load')
                    return
                if ans[0] == 'dead':
                    ctx.violation('crash', 'step %d: the restarted process died' % q, kind + '.load')
                    return
                d, outs = ans[1]
                for op, got in zip(st['ops'], outs):
                    ctx.observe(got)
                    loaded += 1
                    m = M.mismatch(got, Z.expect(model, op))
                    if m:
                        ctx.violation('wrong-result-after-restart', 'step %d: %s' % (q, m), Z.where(model, op))
                        return
            if before is not None and differ(before, d):
                ctx.violation('loaded-definition-differs', 'step %d: %s' % (q, differ(before, d)), kind + '.load')
                return
        # saved files, in the same way as nothing else, are not changed behind the user's back
    ctx.nontrivial = loaded > 0
    ctx.counters['sessions'] += 1


def differ(a, b):
    for k in sorted(a):
        if k not in b or repr(a[k]) != repr(b[k]):
            return '%s: %r, now %r' % (k, a[k], b.get(k))
    return None


def valid(plan):
    n = len(plan['models'])
    saved = set()
    for st in plan['steps']:
        if st['do'] in ('edit', 'op', 'save', 'clone') and st['s'] >= n:
            return False
        if st['do'] in ('clone', 'load'):
            n += 1
        if st['do'] == 'save':
            saved.add(st['name'])
        if st['do'] in ('load', 'restart') and st['name'] not in saved:
            return False
    return True


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        p = Z.with_(plan, steps=l)
        if l and valid(p):
            yield p
    for i, st in enumerate(plan['steps']):
        if st['do'] == 'restart' and len(st['ops']) > 1:
            for l in Z.less_list(st['ops']):
                if l:
                    yield Z.with_(plan, steps=plan['steps'][:i] + [dict(st, ops=l)] + plan['steps'][i + 1:])
        if st['do'] == 'op':
            for o in Z.simpler_op(st['op']):
                yield Z.with_(plan, steps=plan['steps'][:i] + [dict(st, op=o)] + plan['steps'][i + 1:])
    if len(plan['models']) > 1 and not any(st['do'] in ('clone', 'load') for st in plan['steps']) and all(st.get('s', 0) == 0 for st in plan['steps']):
        yield Z.with_(plan, models=plan['models'][:1])
    for i, m in enumerate(plan['models']):
        for t in Z.simpler_model(m):
            yield Z.with_(plan, models=plan['models'][:i] + [t] + plan['models'][i + 1:])
