"""Saving under crashes, disk errors, interrupts and concurrency: what can be loaded is always the complete old or the complete new version."""
import copy
import errno
import os
import random
import shutil

from .. import bays as B
from .. import common as Z
from .. import disk
from .. import env
from .. import histories as H
from .. import models as M
from . import f06

RUNS = dict(quick=4500, thorough=60000)
WALL = dict(quick=70, thorough=800)
RULE = ('one simulation = one seed: a model saved again and again, every save under a disk fault, an interrupt, an object that cannot be saved, another thread that saves or loads, '
        'or none, and with every save a number of crashes (process killed or power lost) at file operations drawn from the seed; non-trivial when a crash state was loaded or a fault fired')
DISTINCT = 'distinct digests of (fault that fired, outcome of the save, version found in every crash state)'
REAL = Z.REAL + ['pickle', 'Python file objects']
STUB = ['file system calls below the scratch directory (libsim logs and disturbs them)', 'crash: the files are rebuilt from the log', 'thread scheduling (libsim)']
ASSUME = ['what was synced survives a loss of power; of what was not, any part may; changes of names survive in order', 'earlier saves are settled on disk when the next one starts']
TIME = 'no clock in the simulated code; time is measured in file operations, see counters'

ERRS = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EDQUOT=errno.EDQUOT, EACCES=errno.EACCES, EROFS=errno.EROFS, EMFILE=errno.EMFILE, EPERM=errno.EPERM)
RD = 1 << 11


class Broken(object):
    """A load function that cannot be saved, or only after a part of the file has been written."""
    def __init__(self, exc):
        self.exc = exc

    def __call__(self, t):
        return 0.

    def __reduce__(self):
        raise self.exc('cannot be saved')


def preload():
    M.kappa_probe()


def gen_round(rng, model):
    kind = rng.choice(['clean', 'clean', 'disk', 'disk', 'disk', 'interrupt', 'interrupt', 'broken', 'threads', 'readfault'])
    e = H.gen_edit(rng, model)
    H.apply_edit(model, e)
    rd = dict(kind=kind, e=e, crashes=rng.randint(2, 6), cseed=rng.getrandbits(40), op=Z.gen_op(rng, model))
    if kind == 'disk':
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice([1, 1, 2, 3, 3, 4, 5])
            fs.append(dict(at=rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), kind=k, err=ERRS[rng.choice(sorted(ERRS))] if k in (1, 5) else errno.ENOSPC, arg=rng.getrandbits(12),
                           opmask=(1 << 4) if k in (2, 4) else 0))
        rd['faults'] = fs
    elif kind == 'interrupt':
        rd['k'] = rng.randint(0, 45)
        rd['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
    elif kind == 'broken':
        rd['exc'] = rng.choice(['TypeError', 'MemoryError', 'KeyboardInterrupt'])
        rd['pad'] = rng.choice([0, 0, 40000, 300000])
    elif kind == 'threads':
        rd['others'] = [dict(what=rng.choice(['save', 'load', 'load']), n=rng.randint(1, 3)) for _ in range(rng.choice([1, 1, 2]))]
        rd['sched'] = dict(seed=rng.getrandbits(60), maxq=rng.choice([2, 5, 20, 100]), grant_p=0, threads=2)
    elif kind == 'readfault':
        rd['faults'] = [dict(at=rng.randint(0, 4), kind=rng.choice([1, 2, 4]), err=errno.EIO, arg=rng.getrandbits(12), opmask=RD)]
    return rd


def gen(rng, tier, i):
    model = Z.gen_model(rng, 'sb', mn=(2, 3))
    name = rng.choice(['wing', 'sub/wing', 'a.b', 'wing.Shell.x'])
    cur = copy.deepcopy(model)
    return dict(model=model, name=name, first=rng.random() < .75, ext=rng.random() < .5, rounds=[gen_round(rng, cur) for _ in range(rng.randint(1, 4) if tier == 'quick' else rng.randint(1, 8))])


EXC = dict(KeyboardInterrupt=env.SimKeyboardInterrupt, MemoryError=env.SimMemoryError, TypeError=TypeError)


class Session(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.model = copy.deepcopy(plan['model'])
        self.kind = self.model['kind']
        self.obj, self.parts = Z.make(self.model)
        self.name = plan['name']
        self.root = os.path.realpath('work')
        os.makedirs(os.path.join(self.root, 'sub'))
        os.chdir(self.root)
        self.file = os.path.join(self.root, self.name + f06.EXT[self.kind])
        self.load = f06.loader(self.kind)
        self.versions = []      # (definition, model)
        self.nload = self.serial = 0
        self.out = []

    def stamp(self):
        # tells the versions apart; has no part in what is calculated
        self.serial += 1
        self.obj.speed_sound = 340. + self.serial

    def version(self):
        d = f06.definition(self.obj, self.kind)
        d['name'] = self.name
        return d, copy.deepcopy(self.model)

    def read(self, op, which):
        """Loads; the index in `which` of the version found, or a description of what is wrong."""
        try:
            o = self.load(self.name + (f06.EXT[self.kind] if self.plan['ext'] else ''))
        except FileNotFoundError:
            return None
        except Exception as e:  # noqa
            return 'cannot be loaded: %s: %s' % (type(e).__name__, e)
        return self.check(o, op, which)

    def check(self, o, op, which):
        d = f06.definition(o, self.kind)
        for i, (v, model) in enumerate(which):
            if f06.differ(v, d) is None:
                self.nload += 1
                if self.nload % 4 == 1:
                    if op['op'] == 'stiff' and op['fi'] >= len(B.flange2d(model['spec'])):
                        op = dict(op='kM')
                    got = Z.perform(o, model, op, [o])
                    m = M.mismatch(got, Z.expect(model, op))
                    if m:
                        return 'loaded, but wrong: %s' % m
                return i
        return 'the loaded model is neither version: %s' % f06.differ(which[-1][0], d)

    def bad(self, kind, detail, q, rd):
        self.ctx.violation(kind, 'save %d (%s): %s' % (q, rd['kind'], detail), self.kind + '.save')

    def crashes(self, q, rd, before, recs, old, new, returned):
        """Crashes at file operations of this save. Returns False at a violation."""
        rng = random.Random(rd['cseed'])
        for x in range(rd['crashes']):
            k = rng.randint(0, len(recs))
            power = rng.random() < .6
            fs = disk.Files(before)
            for r in recs[:k]:
                fs.apply(r)
            torn = False
            if not power and k < len(recs) and recs[k]['op'] == 'write' and recs[k]['data'] and not recs[k]['fault']:
                r = dict(recs[k])
                r['data'] = r['data'][:rng.randint(0, len(r['data']))]
                fs.apply(r)
                torn = True
            files = fs.power_lost(rng) if power else fs.killed()
            d = '/'.join([os.path.dirname(self.root), 'crash'])
            disk.materialise(files, self.root, d)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            which = ([old] if old else []) + [new]
            got = self.read(rd['op'], which)
            os.chdir(self.root)
            shutil.rmtree(d)
            self.ctx.faults['loss of power' if power else 'process killed'] += 1
            what = '%s after %d of %d file operations%s' % ('power lost' if power else 'process killed', k, len(recs), ' (torn write)' if torn else '')
            if isinstance(got, str):
                self.bad('crash-left-a-broken-file', '%s: %s' % (what, got), q, rd)
                return False
            if got is None and old is not None:
                self.bad('crash-lost-the-file', '%s: the saved model is gone' % what, q, rd)
                return False
            if not power and k == len(recs) and returned and got != len(which) - 1:
                self.bad('saved-version-is-not-there', '%s: the save had returned' % what, q, rd)
                return False
            self.out.append((what.split(' ')[0], k, got if got is None else which[got] is new))
        return True

    def round(self, q, rd):
        ctx, old = self.ctx, (self.versions[-1] if self.versions else None)
        H.apply_edit(self.model, rd['e'], self.obj, self.parts)
        self.stamp()
        new = self.version()
        self.obj.name = self.name
        before = disk.snapshot(self.root)
        kind = rd['kind']
        broken = None
        if kind == 'broken':
            broken = Broken(EXC[rd['exc']])
            if self.kind == 'shell':
                self.obj.distr_loads.append([0., None, M.Poly([0.] * (rd['pad'] // 10 + 1), 1.), broken, None])
            else:
                self.obj.forces_skin.append([0.] * (rd['pad'] // 10) + [broken])
        dk = env.Disk(self.root)
        dk.set_faults(rd.get('faults', []) if kind == 'disk' else [], first=True)
        exc, fired, loads = None, 0, []
        dk.on()
        try:
            if kind == 'threads':
                exc = self.threads(rd, new, loads)
                fired = 1
            elif kind == 'interrupt':
                with env.inject_at_line(rd['k'], EXC[rd['exc']]) as inj:
                    try:
                        self.obj.save()
                    except EXC[rd['exc']] as e:
                        exc = e
                if inj.fired:
                    fired = 1
                    ctx.faults['%s at a line of save' % rd['exc']] += 1
            else:
                try:
                    self.obj.save()
                except (Exception, env.SimKeyboardInterrupt) as e:  # noqa
                    exc = e
        finally:
            dk.off()
        recs = dk.records()
        if kind == 'disk':
            names = {1: 'error', 2: 'short write', 3: 'disk full', 4: 'EINTR', 5: 'disk unusable'}
            hit = [f for f, x in zip(rd['faults'], dk.fired()) if x]
            fired = len(hit)
            for f in hit:
                ctx.faults['%s%s' % (names[f['kind']], ' ' + errno.errorcode.get(f['err'], '?') if f['kind'] in (1, 5) else '')] += 1
            if exc is not None and not fired:
                raise exc
        elif kind == 'broken':
            fired = 1
            ctx.faults['object that cannot be saved'] += 1
            (self.obj.distr_loads if self.kind == 'shell' else self.obj.forces_skin).pop()
        elif exc is not None and not fired:
            raise exc
        ctx.counters['file operations'] += len(recs)
        ctx.counters['saves'] += 1
        ctx.counters['saves that failed'] += exc is not None
        self.out.append((kind, type(exc).__name__, fired))
        if fired:
            ctx.nontrivial = True
        # what is there now
        which = ([old] if old else []) + [new]
        now = self.read(rd['op'], which)
        if isinstance(now, str):
            return self.bad('failed-save-left-a-broken-file' if exc is not None else 'save-left-a-broken-file', now, q, rd)
        isnew = now is not None and which[now] is new
        if exc is None and not isnew and kind != 'broken':
            return self.bad('saved-version-is-not-there', 'the save returned', q, rd)
        if exc is None and kind == 'broken':
            return self.bad('failure-not-reported', 'the save returned', q, rd)
        if exc is not None and now is None and old is not None:
            return self.bad('failed-save-lost-the-file', 'the saved model is gone after %r' % exc, q, rd)
        if exc is not None and kind == 'broken' and isnew and old is None:
            return self.bad('failed-save-left-a-file', 'after %r' % exc, q, rd)
        after = disk.snapshot(self.root)
        cleaning = kind == 'disk' and (any(f['kind'] == 5 for f in rd['faults']) or len(rd['faults']) > 1)
        extra = sorted(set(after) - set(before) - {self.file})
        if extra and not cleaning:
            return self.bad('save-left-other-files', ', '.join(os.path.basename(x)[:5] for x in extra), q, rd)
        for x in extra:
            os.unlink(x)
        lost = sorted(p for p in before if p not in after)
        if lost:
            return self.bad('save-removed-files', ', '.join(os.path.relpath(x, self.root) for x in lost), q, rd)
        # the model is still the same and works
        d = f06.differ(new[0], dict(f06.definition(self.obj, self.kind), name=self.name))
        if d:
            return self.bad('definition-modified', d, q, rd)
        got = Z.perform(self.obj, self.model, rd['op'], self.parts)
        ctx.observe(Z.plain(got))
        m = M.mismatch(got, Z.expect(self.model, rd['op']))
        if m:
            return self.bad('wrong-result-after-save', m, q, rd)
        if kind != 'broken' and not self.crashes(q, rd, before, recs, old, new, exc is None):
            return
        if kind == 'readfault' and not self.readfault(q, rd, new):
            return
        if isnew:
            self.versions.append(new)
        else:
            self.obj.save()
            now = self.read(rd['op'], [new])
            if now != 0:
                return self.bad('cannot-save-after-a-failed-save', str(now), q, rd)
            self.versions.append(new)
        return True

    def readfault(self, q, rd, new):
        dk = env.Disk(self.root)
        dk.set_faults(rd['faults'], first=True)
        dk.on()
        exc = o = None
        try:
            try:
                o = self.load(self.name)
            except Exception as e:  # noqa
                exc = e
        finally:
            dk.off()
        f = rd['faults'][0]
        hit = dk.fired()[0]
        if hit:
            self.ctx.faults['read: ' + {1: 'error EIO', 2: 'short', 4: 'EINTR'}[f['kind']]] += 1
        if exc is not None and not (hit and f['kind'] == 1):
            self.bad('cannot-load', repr(exc), q, rd)
            return False
        if o is not None:
            r = self.check(o, rd['op'], [new])
            if r != 0:
                self.bad('loaded-wrong-under-read-faults', str(r), q, rd)
                return False
        if self.read(rd['op'], [new]) != 0:
            self.bad('cannot-load-after-a-failed-load', '', q, rd)
            return False
        return True

    def threads(self, rd, new, loads):
        """The save, and other threads that save a model of the same definition or load, at the same time."""
        old = self.versions[-1] if self.versions else None
        which = ([old] if old else []) + [new]

        def saver(o):
            o.save()

        def reader(n):
            out = []
            for _ in range(n):
                try:
                    out.append(self.load(self.name))
                except FileNotFoundError:
                    out.append(None)
                except Exception as e:  # noqa
                    out.append(e)
            return out
        fns = [lambda: saver(self.obj)]
        for o in rd['others']:
            if o['what'] == 'save':
                tw = copy.deepcopy(self.obj)
                fns.append(lambda tw=tw: saver(tw))
            else:
                fns.append(lambda n=o['n']: reader(n))
        res, st, tr = env.run_threads(fns, rd['sched'])
        self.ctx.faults['thread switches'] += st['switches']
        exc = None
        for (k, v), o in zip(res, [dict(what='save')] + rd['others']):
            if k == 'exc':
                if exc is None:
                    exc = v
                    raise v
            elif o['what'] == 'load':
                for x in v:
                    if x is None:
                        if old is not None:
                            raise Found('load-did-not-find-the-file', 'a load at the same time as a save did not find the model')
                        continue
                    r = str(x) if isinstance(x, Exception) else self.check(x, rd['op'], which)
                    if isinstance(r, str):
                        raise Found('load-during-save', r)
        return exc


class Found(Exception):
    pass


def run(plan, ctx):
    s = Session(plan, ctx)
    try:
        if plan['first']:
            s.obj.name = s.name
            s.stamp()
            s.obj.save()
            s.versions.append(s.version())
        for q, rd in enumerate(plan['rounds']):
            try:
                ok = s.round(q, rd)
            except Found as e:
                s.bad(e.args[0], e.args[1], q, rd)
                return
            if not ok:
                return
        ctx.hashes.append(env.digest([repr(x) for x in s.out]))
        ctx.counters['sessions'] += 1
    finally:
        os.chdir('/')


def shrink(plan):
    for l in Z.less_list(plan['rounds']):
        if l:
            yield Z.with_(plan, rounds=l)
    for i, rd in enumerate(plan['rounds']):
        def rep(**kw):
            return Z.with_(plan, rounds=plan['rounds'][:i] + [dict(rd, **kw)] + plan['rounds'][i + 1:])
        if rd.get('faults') and len(rd['faults']) > 1:
            for l in Z.less_list(rd['faults']):
                if l:
                    yield rep(faults=l)
        if rd.get('others') and len(rd['others']) > 1:
            for l in Z.less_list(rd['others']):
                if l:
                    yield rep(others=l)
        if rd['crashes'] > 1:
            yield rep(crashes=1)
            yield rep(crashes=rd['crashes'] - 1)
        if rd['crashes']:
            for c in range(20):
                yield rep(crashes=1, cseed=c)
        if rd['kind'] != 'clean':
            yield rep(kind='clean')
        for o in Z.simpler_op(rd['op']):
            yield rep(op=o)
    for m in Z.simpler_model(plan['model']):
        yield Z.with_(plan, model=m)
