"""Runs the simulations of one property: seeds -> plans -> one forked process per run -> verdicts, minimisation, evidence."""
import argparse
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = max(1, min(int(os.environ.get('PANELS_SIM_JOBS') or 8), os.cpu_count() or 1))
FATAL = {71: 'deadlock', 72: 'no-progress'}


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()[:8], 'big')


class Ctx(object):
    """What a scenario sees: its scratch directory, its PRNG, and where it records what happened."""
    def __init__(self, plan, scratch):
        self.plan, self.scratch = plan, scratch
        self.violations, self.known, self.faults, self.counters = [], [], collections.Counter(), collections.Counter()
        self.hashes, self.dig, self.trace, self.nontrivial, self.probes = [], hashlib.sha256(), None, False, collections.Counter()
        self.traces = []

    def rng(self, *k):
        return random.Random(seed_of(self.plan.get('seed', 0), *k))

    def violation(self, kind, detail, where=''):
        self.violations.append(dict(kind=kind, where=str(where), detail=str(detail)[:2000]))

    def known_finding(self, sig, detail):
        self.known.append(dict(sig=sig, detail=str(detail)[:500]))

    def observe(self, *vals):
        self.dig.update(env.digest(*vals).encode())

    def result(self):
        return dict(violations=self.violations, known=self.known, faults=dict(self.faults), counters=dict(self.counters),
                    hashes=self.hashes, digest=self.dig.hexdigest()[:16], nontrivial=bool(self.nontrivial), probes=dict(self.probes),
                    traces=self.traces)


def library_frames(e):
    out = []
    while e is not None:
        for f, line in traceback.walk_tb(e.__traceback__):
            fn = os.path.realpath(f.f_code.co_filename)
            if fn.startswith(env.PKG):
                out.append('%s:%s' % (os.path.relpath(fn, os.path.realpath(env.REPO)), f.f_code.co_name))
            elif '/panels/' in fn and fn.endswith(('.pyx', '.so')) or fn.startswith('panels/'):
                out.append('%s:%s' % (fn, f.f_code.co_name))
        e = e.__cause__ or e.__context__
    return out


def child(scn, plan, scratch, wfd, errfd):
    try:
        gc.freeze()   # the library collects garbage after every operation; what the parent holds is not garbage
        sys.stdout.flush()
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(errfd, 2)
        os.chdir(scratch)
        random.seed(plan.get('seed', 0))
        import numpy as np
        np.random.seed(plan.get('seed', 0) & 0x7fffffff)
        ctx = Ctx(plan, scratch)
        try:
            scn.run(copy.deepcopy(plan), ctx)
            res = ctx.result()
        except env.HarnessError:
            raise
        except BaseException as e:  # noqa
            fr = library_frames(e)
            if not fr:
                raise
            res = ctx.result()
            res['violations'].append(dict(kind='unexpected-exception', where=fr[0], detail='%s: %s at %s' % (type(e).__name__, e, ' < '.join(fr[:4]))))
        data = json.dumps(res).encode()
    except BaseException as e:  # noqa
        data = json.dumps(dict(harness_error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])).encode()
    try:
        n = 0
        while n < len(data):
            n += os.write(wfd, data[n:n + 65536])
    finally:
        os._exit(0)


class Pool(object):
    def __init__(self, scn, timeout):
        self.scn, self.timeout = scn, timeout
        self.base = tempfile.mkdtemp(prefix='panelsim-')
        self.n = 0

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def start(self, key, plan, timeout):
        self.n += 1
        scratch = os.path.join(self.base, 'r%d' % self.n)
        os.mkdir(scratch)
        r, w = os.pipe()
        err = os.open(os.path.join(self.base, 'err%d' % self.n), os.O_RDWR | os.O_CREAT, 0o600)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                child(self.scn, plan, scratch, w, err)
            finally:
                os._exit(99)
        os.close(w)
        os.set_blocking(r, False)
        return dict(key=key, plan=plan, pid=pid, fd=r, err=err, buf=b'', t0=time.time(), timeout=timeout, scratch=scratch,
                    errp=os.path.join(self.base, 'err%d' % self.n))

    def finish(self, j, killed):
        try:
            if killed:
                os.kill(j['pid'], signal.SIGKILL)
            _, st = os.waitpid(j['pid'], 0)
        except ChildProcessError:
            st = 0
        try:
            os.killpg(j['pid'], signal.SIGKILL)
        except OSError:
            pass
        os.close(j['fd'])
        os.lseek(j['err'], 0, os.SEEK_SET)
        tail = os.read(j['err'], 100000)[-1500:].decode('utf-8', 'replace')
        os.close(j['err'])
        os.unlink(j['errp'])
        shutil.rmtree(j['scratch'], ignore_errors=True)
        if killed:
            return dict(timeout=True, stderr=tail)
        code = os.waitstatus_to_exitcode(st)
        try:
            res = json.loads(j['buf'])
        except ValueError:
            res = None
        if res is not None and code == 0:
            return res
        if code in FATAL:
            return dict(violations=[dict(kind=FATAL[code], where='', detail=tail[-600:])], fatal=True)
        if code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
            return dict(violations=[dict(kind='crash', where=signal.Signals(-code).name, detail=tail[-600:])], fatal=True)
        return dict(harness_error='run ended with code %s: %s' % (code, tail))

    def map(self, items, timeout=None, deadline=None, on=None):
        """items: iterable of (key, plan); yields results through on(key, plan, result) as they come; stops feeding at deadline."""
        it = iter(items)
        live = {}
        more = True
        while more or live:
            while more and len(live) < JOBS:
                if deadline is not None and time.time() > deadline:
                    more = False
                    break
                try:
                    key, plan = next(it)
                except StopIteration:
                    more = False
                    break
                j = self.start(key, plan, timeout or self.timeout)
                live[j['fd']] = j
            if not live:
                break
            rd, _, _ = select.select(list(live), [], [], 0.5)
            for fd in rd:
                j = live[fd]
                try:
                    b = os.read(fd, 1 << 16)
                except BlockingIOError:
                    continue
                if b:
                    j['buf'] += b
                else:
                    del live[fd]
                    on(j['key'], j['plan'], self.finish(j, False))
            now = time.time()
            for fd in list(live):
                j = live[fd]
                if now - j['t0'] > j['timeout']:
                    del live[fd]
                    on(j['key'], j['plan'], self.finish(j, True))


def run_one(pool, plan, timeout=None):
    out = []
    pool.map([(0, plan)], timeout=timeout, on=lambda k, p, r: out.append(r))
    return out[0]


def vkinds(res):
    return {(v['kind'], v['where']) for v in res.get('violations') or []}


def same(res, target):
    return target in vkinds(res)


def minimise(pool, scn, plan, target, budget):
    """Greedy: among the scenario's simpler plans, take the first that still shows the same violation."""
    t_end = time.time() + budget
    tried, taken = 0, 0
    cur = plan
    progress = True
    while progress and time.time() < t_end:
        progress = False
        cands = []
        for c in scn.shrink(copy.deepcopy(cur)):
            cands.append(c)
            if len(cands) >= 400:
                break
        i = 0
        while i < len(cands) and time.time() < t_end:
            batch = cands[i:i + JOBS]
            got = {}
            pool.map(list(enumerate(batch)), timeout=30, on=lambda k, p, r: got.__setitem__(k, r))
            tried += len(batch)
            ok = [k for k in sorted(got) if same(got[k], target)]
            if ok:
                cur = batch[ok[0]]
                taken += 1
                progress = True
                break
            i += len(batch)
    return cur, tried, taken


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return dict(findings=[], fixed=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--digests', help='write "index digest" lines here')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first violation, do not minimise it (development)')
    a = ap.parse_args()
    t0 = time.time()
    scn = importlib.import_module('sim.scenarios.' + a.prop.lower())
    mpl = tempfile.mkdtemp(prefix='panelsim-mpl-')
    os.environ['MPLCONFIGDIR'] = mpl
    try:
        env.install()
        if hasattr(scn, 'preload'):
            scn.preload()
    except BaseException as e:  # noqa
        shutil.rmtree(mpl, ignore_errors=True)
        if isinstance(e, env.HarnessError) or not (library_frames(e) or isinstance(e, ImportError)):
            raise
        # the library cannot even be imported: nothing it promises can hold
        print('the library cannot be imported: %s' % e)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join('replays', '%s-import.json' % a.prop)
        with open(os.path.join(VERIF, rp), 'w') as f:
            json.dump(dict(property=a.prop, plan=None, violation=dict(kind='import', where='', detail=str(e))), f)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    pool = Pool(scn, getattr(scn, 'TIMEOUT', 90))
    try:
        if a.replay:
            return replay(pool, scn, a)
        return explore(pool, scn, a, t0)
    finally:
        pool.close()
        shutil.rmtree(mpl, ignore_errors=True)


def replay(pool, scn, a):
    with open(a.replay) as f:
        rec = json.load(f)
    res = run_one(pool, rec['plan'], 300)
    if res.get('harness_error'):
        print(res['harness_error'], file=sys.stderr)
        return 3
    if res.get('timeout'):
        res['violations'] = [dict(kind='did-not-finish', where='', detail=res.get('stderr', ''))]
    v = res.get('violations') or []
    for x in v:
        print('  %s %s: %s' % (x['kind'], x['where'], x['detail']))
    for k in res.get('known') or []:
        print('  known: %s: %s' % (k['sig'], k['detail']))
    want = rec.get('violation')
    if want and (want['kind'], want['where']) in vkinds(res):
        exact = res.get('digest') == rec.get('digest')
        print('reproduced%s' % (' exactly (digest %s)' % res.get('digest') if exact else ''))
        print('VIOLATION property=%s replay=%s' % (rec['property'], a.replay))
        return 1
    if v:
        print('VIOLATION property=%s replay=%s' % (rec['property'], a.replay))
        return 1
    print('no violation')
    return 0


def explore(pool, scn, a, t0):
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    runs = a.runs or scn.RUNS[tier]
    wall = a.wall or getattr(scn, 'WALL', {}).get(tier, 75 if tier == 'quick' else 600)
    print('property=%s tier=%s seed=%d runs=%d' % (a.prop, tier, a.seed, runs))
    sys.stdout.flush()
    known = {k['sig']: k for k in load_known()['findings'] if k['property'] == a.prop}
    agg = dict(faults=collections.Counter(), counters=collections.Counter(), probes=collections.Counter())
    hashes, digests, samples, found, knownseen, harness, timeouts, plans = set(), {}, [], [], {}, [], [], {}
    nontriv = [0]
    stop = [False]

    def gen():
        for i in range(runs):
            if stop[0]:
                return
            rng = random.Random(seed_of(a.seed, a.prop, i))
            plan = scn.gen(rng, tier, i)
            plan['seed'] = seed_of(a.seed, a.prop, i, 'run')
            plan = json.loads(json.dumps(plan))
            yield i, plan

    def on(i, plan, res):
        if res.get('harness_error'):
            harness.append((i, res['harness_error']))
            if a.debug:
                print('run %d: harness error\n%s' % (i, res['harness_error']))
            if len(harness) > 5:
                stop[0] = True
            return
        if res.get('timeout'):
            timeouts.append((i, plan))
            return
        for k in agg:
            agg[k].update(res.get(k) or {})
        digests[i] = res.get('digest', '-')
        for h in res.get('hashes') or []:
            hashes.add(h)
        if res.get('nontrivial'):
            nontriv[0] += 1
            hashes.add('%s' % res.get('digest'))
        if len(plans) < 64:
            plans[i] = plan
        for k in res.get('known') or []:
            knownseen.setdefault(k['sig'], k)
        vs = [v for v in res.get('violations') or []]
        if vs:
            found.append((i, plan, res))
            if a.debug:
                print('run %d: %s' % (i, vs))
            if len(found) >= 6 or a.first:
                stop[0] = True

    t1 = time.time()
    pool.map(gen(), deadline=t1 + wall, on=on)
    # a run that does not come back is tried again, alone, with time to spare
    for i, plan in timeouts[:2] if not found else []:
        res = run_one(pool, plan, 240)
        if res.get('timeout'):
            found.append((i, plan, dict(violations=[dict(kind='did-not-finish', where='', detail='no result after 240 s')])))
        else:
            on(i, plan, res)
    explored_s = time.time() - t1
    done = len(digests)
    # determinism: the first runs again, must give the same digests
    redo = {}
    sel = [i for i in sorted(plans)][:getattr(scn, 'SELFTEST', 8)]
    if not found:
        pool.map([(i, plans[i]) for i in sel], on=lambda k, p, r: redo.__setitem__(k, r.get('digest')))
        bad = [i for i in sel if redo.get(i) != digests[i]]
        if bad:
            harness.append((bad[0], 'runs %s are not repeatable: %s / %s' % (bad, digests[bad[0]], redo.get(bad[0]))))
    code = 0
    nviol = 0
    reported = set()
    for sig in knownseen:
        if sig in known:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, known[sig]['what']))
        else:
            found.append((-1, None, dict(violations=[dict(kind='known-finding-not-listed', where=sig, detail=knownseen[sig]['detail'])])))
    for i, plan, res in sorted(found, key=lambda t: t[0]):
        v = res['violations'][0]
        key = (v['kind'], v['where'])
        if key in reported or len(reported) >= 3:
            continue
        reported.add(key)
        nviol += 1
        code = 1
        mini, tried, taken = plan, 0, 0
        if plan is not None and hasattr(scn, 'shrink') and not a.first and v['kind'] != 'did-not-finish':
            if hasattr(scn, 'explicit'):
                e = scn.explicit(copy.deepcopy(plan), res)
                if e is not None and same(run_one(pool, e, 60), key):
                    plan = e
            mini, tried, taken = minimise(pool, scn, plan, key, 45 if tier == 'quick' else 120)
        final = run_one(pool, mini, 240) if mini is not None and v['kind'] != 'did-not-finish' else res
        fv = [x for x in final.get('violations') or [] if (x['kind'], x['where']) == key] or [v]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join('replays', '%s-%d-%d-%s.json' % (a.prop, a.seed, max(i, 0), hashlib.sha1(repr(key).encode()).hexdigest()[:6]))
        with open(os.path.join(VERIF, rp), 'w') as f:
            json.dump(dict(property=a.prop, verif_seed=a.seed, run=i, plan=mini, original_plan=plan, violation=fv[0], digest=final.get('digest'),
                           minimised=dict(candidates_tried=tried, steps_taken=taken)), f, indent=1)
        print('run %d: %s %s: %s' % (i, v['kind'], v['where'], fv[0]['detail']))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        sys.stdout.flush()
    wall_s = time.time() - t0
    if a.digests:
        with open(a.digests, 'w') as f:
            for i in sorted(digests):
                f.write('%d %s\n' % (i, digests[i]))
    if not a.no_evidence:
        rate = done / max(explored_s, 1e-9) * 3600
        cov = dict(evaluations=done, distinct_nontrivial=len(hashes), rule=scn.RULE,
                   samples=[dict(run=i, plan=plans[i]) for i in sorted(plans)[:2]],
                   simulated_runs=done, runs_planned=runs, runs_per_hour=round(rate), seeds_per_hour=round(rate), nontrivial_runs=nontriv[0],
                   simulated_time=getattr(scn, 'TIME', 'no clock in the simulated code: measured in steps, see counters'),
                   faults_injected=dict(sorted(agg['faults'].items())), counters=dict(sorted(agg['counters'].items())),
                   reach_probes=dict(sorted(agg['probes'].items())), distinct_measure=scn.DISTINCT,
                   determinism=dict(runs_repeated=len(sel) if not found else 0, divergent=0 if not harness else None),
                   real_components=scn.REAL, stub_components=scn.STUB, explored_s=round(explored_s, 2),
                   harness_errors=len(harness), runs_retried_after_timeout=len(timeouts), known_findings_seen=sorted(knownseen))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(dict(property=a.prop, tier=tier, seed=a.seed, level='exploration', coverage=cov, assumptions=scn.ASSUME,
                           wall_s=round(wall_s, 2), violations=nviol), f, indent=1)
    print('%d runs in %.1f s, %d distinct, faults %s, %d violations' % (done, explored_s, len(hashes), dict(agg['faults']), nviol))
    if code == 0 and harness:
        for i, h in harness[:3]:
            print('HARNESS-ERROR run %d: %s' % (i, h), file=sys.stderr)
        return 3
    if code == 0 and done == 0:
        print('HARNESS-ERROR: nothing was explored', file=sys.stderr)
        return 3
    if code == 0 and len(timeouts) > 2:
        print('HARNESS-ERROR: %d runs did not finish' % len(timeouts), file=sys.stderr)
        return 3
    return code


if __name__ == '__main__':
    sys.exit(main())
