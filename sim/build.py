"""Builds the library's compiled extensions, instrumented, from the working tree of /repo into a scratch directory.

The Python sources are not copied: they are imported from /repo itself (see env.py). Only the Cython/C++ parts are
compiled here, from a scratch copy, with -fsanitize=thread code generation, so that every memory access calls the
simulation runtime (shim.c); nothing of the ThreadSanitizer runtime is linked.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PANELS_SIM_REPO', '/repo')
BUILD = os.environ.get('PANELS_SIM_BUILD', os.path.join(os.path.dirname(HERE), '.build'))
GXX = '/usr/bin/g++' if os.path.exists('/usr/bin/g++') else 'g++'
GCC = '/usr/bin/gcc' if os.path.exists('/usr/bin/gcc') else 'gcc'
# Instrument memory accesses; no runtime of the sanitizer is linked.
KFLAGS = ['-O1', '-g0', '-w', '-fPIC', '-fsanitize=thread', '-fno-strict-aliasing', '-fno-omit-frame-pointer',
          '-ftrivial-auto-var-init=pattern']
VERSION = b'6'


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'panels')):
        dirs[:] = sorted(d for d in dirs if d not in ('__pycache__',))
        for f in sorted(files):
            p = os.path.join(root, f)
            base, ext = os.path.splitext(p)
            if ext in ('.so', '.pyc', '.png', '.DS_Store') or f == '.DS_Store':
                continue
            if ext in ('.cpp', '.c') and os.path.exists(base + '.pyx'):
                continue
            if f == 'version.py':
                continue
            out.append(p)
    out.append(os.path.join(REPO, 'setup.py'))
    return out


COMPILED = ('.pyx', '.pxd', '.pxi', '.cpp', '.c', '.hpp', '.h')


def state_hash():
    h = hashlib.sha256(VERSION)
    for p in _sources():
        if not (p.endswith(COMPILED) or p.endswith('setup.py')):
            continue
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    for p in (os.path.join(HERE, 'shim.c'), os.path.join(HERE, 'build.py')):
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


INTROSPECT = r'''
import json, sys, os
sys.argv = ['setup.py', '--version']
import setuptools, setuptools.extension, Cython.Build
out = {}
def fake_cythonize(mods, **kw):
    out['cy'] = {k: v for k, v in kw.items() if k in ('compiler_directives', 'language_level')}
    return mods
Cython.Build.cythonize = fake_cythonize
def fake_setup(**kw):
    out['ext'] = [dict(name=e.name, sources=list(e.sources), include_dirs=list(e.include_dirs or []),
        define_macros=[list(x) for x in (e.define_macros or [])], cargs=list(e.extra_compile_args or []),
        largs=list(e.extra_link_args or []), language=e.language, libraries=list(e.libraries or [])) for e in kw.get('ext_modules') or []]
setuptools.setup = fake_setup
import distutils.core
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
print('@@' + json.dumps(out))
'''


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise RuntimeError('build command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(verbose=True):
    """Returns the directory that holds libsim.so and ext/<dotted.name>.so; builds what is missing."""
    os.makedirs(BUILD, exist_ok=True)
    key = state_hash()
    out = os.path.join(BUILD, key)
    done = os.path.join(out, 'done')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            os.utime(out)
            return out
        t0 = time.time()
        for d in sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                        key=os.path.getmtime)[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        src = os.path.join(out, 'src')
        os.makedirs(src)
        os.makedirs(os.path.join(out, 'ext'))
        for p in _sources():
            q = os.path.join(src, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        for extra in ('README.md', 'LICENSE', 'pyproject.toml'):
            if os.path.exists(os.path.join(REPO, extra)):
                shutil.copyfile(os.path.join(REPO, extra), os.path.join(src, extra))
        txt = _run([sys.executable, '-c', INTROSPECT], src)
        info = json.loads([l for l in txt.splitlines() if l.startswith('@@')][-1][2:])
        pyinc = [sysconfig.get_paths()['include'], sysconfig.get_paths().get('platinclude', '')]
        jobs = {}
        ext_objs = {}
        cyargs = ['-3']
        for k, v in (info.get('cy', {}).get('compiler_directives') or {}).items():
            if k in ('linetrace', 'profile'):
                continue
            cyargs += ['-X', '%s=%s' % (k, v)]
        for e in info['ext']:
            inc = ['-I' + d for d in e['include_dirs'] if os.path.isdir(os.path.join(src, d))] + ['-I' + d for d in pyinc if d]
            defs = ['-D%s%s' % (m[0], '' if m[1] is None else '=' + str(m[1])) for m in e['define_macros']]
            objs = []
            for s in e['sources']:
                s = os.path.normpath(s)
                flags = tuple(KFLAGS + inc + defs + [a for a in e['cargs'] if not a.startswith('/')])
                o = os.path.join(out, 'obj', hashlib.sha1(('%s|%s|%s' % (s, flags, e['language'])).encode()).hexdigest()[:16] + '.o')
                jobs[o] = (s, flags, e['language'])
                objs.append(o)
            ext_objs[e['name']] = (objs, e)
        os.makedirs(os.path.join(out, 'obj'))

        def compile_one(item):
            o, (s, flags, lang) = item
            cpp = lang in ('c++', 'cpp')
            if s.endswith('.pyx'):
                gen = o[:-2] + ('.cpp' if cpp else '.c')
                _run([sys.executable, '-m', 'cython'] + (['--cplus'] if cpp else []) + cyargs + [s, '-o', gen], src)
                s = gen
                flags = tuple(flags) + ('-I' + os.path.dirname(os.path.join(src, jobs[o][0])),)
            _run([GXX if cpp else GCC] + list(flags) + ['-c', s, '-o', o], src)

        order = sorted(jobs.items(), key=lambda it: -os.path.getsize(os.path.join(src, it[1][0])))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            sim = ex.submit(_run, [GCC, '-O2', '-w', '-shared', '-fPIC', '-o', os.path.join(out, 'libsim.so'),
                                   os.path.join(HERE, 'shim.c'), '-ldl', '-lpthread', '-lm'], src)
            list(ex.map(compile_one, order))
            sim.result()

            def link(item):
                name, (objs, e) = item
                # undefined __tsan_* and GOMP_* symbols are supplied by the preloaded runtime
                _run([GXX, '-shared', '-o', os.path.join(out, 'ext', name + '.so')] + objs +
                     [a for a in e['largs'] if a != '-fopenmp'] + ['-l' + l for l in e['libraries']] + ['-lm'], src)
            list(ex.map(link, ext_objs.items()))
        shutil.rmtree(os.path.join(out, 'obj'), ignore_errors=True)
        with open(os.path.join(out, 'info.json'), 'w') as f:
            json.dump(dict(ext=sorted(ext_objs), build_s=round(time.time() - t0, 1), state=key), f)
        open(done, 'w').close()
        if verbose:
            print('built %d instrumented extensions in %.1f s (%s)' % (len(ext_objs), time.time() - t0, key), file=sys.stderr)
    return out


if __name__ == '__main__':
    print(build())
