"""C18: a release stops at the first step that fails."""
import os
import re
import sys
import errno
import signal

from .base import Prop, Sink
from .. import catalog, loader
from ..engine import HarnessError

STEPS = ['build', 'upload', 'tag', 'push']
OUT = ['ok', 'status', 'signal', 'oserror', 'memory', 'interrupt']
CLEAN = ['ok', 'missing', 'denied', 'notempty', 'busy', 'interrupt']


def known_findings():
    """lines 'known: property=C18 <failed step> -> <next step>: <what fails>' of known_findings.txt"""
    out = {}
    with open(os.path.join(os.path.dirname(__file__), '..', '..', 'known_findings.txt')) as f:
        for ln in f:
            m = re.match(r'known: property=C18 (\w+) -> (\w+): (.*)', ln)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def step_of(cmd):
    c = cmd if isinstance(cmd, str) else ' '.join(str(x) for x in cmd)
    if 'dist_wheel' in c or 'sdist' in c or ' -m build' in c or 'bdist' in c:
        return 'build'
    if 'twine' in c and 'upload' in c:
        return 'upload'
    if 'git' in c and 'push' in c:
        return 'push'
    if 'git' in c and 'tag' in c:
        return 'tag'
    return 'other'


class World(object):
    """stands in for the shell and the directory of builds; only records"""

    def __init__(self):
        self.plan = {}
        self.clean = 'ok'
        self.log = []

    def start(self, rel):
        self.plan = dict(zip(STEPS, rel['out']))
        self.clean = rel['clean']
        self.log = []

    def run(self, cmd):
        s = step_of(cmd)
        how = self.plan.get(s, 'ok')
        self.log.append((s, how, cmd if isinstance(cmd, str) else list(map(str, cmd))))
        if how == 'status':
            return 1
        if how == 'signal':
            return -signal.SIGTERM
        if how == 'oserror':
            raise OSError(errno.EAGAIN, 'simulated: no more processes')
        if how == 'memory':
            raise MemoryError('simulated')
        if how == 'interrupt':
            raise KeyboardInterrupt('simulated')
        return 0

    def system(self, cmd):
        rc = self.run(cmd)
        return rc * 256 if rc >= 0 else -rc        # as wait() reports it

    def rmtree(self, path, ignore_errors=False, onerror=None, **kw):
        self.log.append(('clean', self.clean, str(path)))
        e = {'missing': errno.ENOENT, 'denied': errno.EACCES, 'notempty': errno.ENOTEMPTY,
             'busy': errno.EBUSY}.get(self.clean)
        if self.clean == 'interrupt':
            raise KeyboardInterrupt('simulated')
        if e is not None and not ignore_errors:
            raise OSError(e, os.strerror(e), str(path))


class P(Prop):
    id = 'C18'
    needs_library = False
    quick_runs = 3000
    thorough_runs = 60000
    rule = ('the release command of the real setup.py runs one to three times in a row; removing old builds and each of '
            'the four shell steps succeeds, exits with an error, is killed, cannot be started, or is interrupted, as '
            'generated; the recorded sequence of steps is checked; non-trivial: distinct plan of outcomes')
    real = 'products/setup.py, executed unmodified; setuptools.Command and Distribution'
    stub = ('setuptools.setup, os.system, subprocess.Popen, shutil.rmtree and the other calls that start processes or '
            'delete files are stand-ins that record what they are given')
    assumptions = ['a step is recognised by the command it hands to the shell (sdist/bdist, twine upload, git tag, git push)']

    def prepare(self):
        import setuptools.dist, distutils.errors, subprocess, shutil
        self.listed = known_findings()
        self.path = os.path.join(os.path.realpath(loader.ROOT), 'setup.py')

    def spec(self, rng, i):
        rels = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            if k < 0.45:            # one step fails
                out = ['ok'] * 4
                out[rng.randrange(4)] = rng.choice(OUT[1:])
            else:
                out = [rng.choice(OUT + ['ok'] * 3) for _ in STEPS]
            rels.append({'out': out, 'clean': rng.choice(CLEAN + ['ok'] * 4)})
        return {'rels': rels, 'lists': ['rels']}

    def viable(self, spec):
        return bool(spec['rels'])

    def simplify(self, spec):
        for i, r in enumerate(spec['rels']):
            for j, o in enumerate(r['out']):
                if o != 'ok':
                    out = list(r['out'])
                    out[j] = 'ok'
                    rels = list(spec['rels'])
                    rels[i] = dict(r, out=out)
                    yield dict(spec, rels=rels)
            if r['clean'] != 'ok':
                rels = list(spec['rels'])
                rels[i] = dict(r, clean='ok')
                yield dict(spec, rels=rels)

    def stand_ins(self, w):
        import shutil
        import subprocess
        import setuptools

        class Popen(object):
            def __init__(self, args, *a, **kw):
                self.args = args
                self.stdin = self.stdout = self.stderr = None
                self.pid = 0
                self.returncode = w.run(args)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def communicate(self, *a, **kw):
                return (None, None)

            def wait(self, *a, **kw):
                return self.returncode
            poll = wait

            def kill(self, *a):
                pass
            terminate = send_signal = kill
        got = {}

        def setup(**kw):
            got.update(kw)
        setuptools.setup = setup
        os.system = w.system
        shutil.rmtree = w.rmtree
        subprocess.Popen = Popen

        def forbidden(name):
            def f(*a, **kw):
                raise HarnessError('setup.py uses os.%s, which has no stand-in' % name)
            return f
        for n in ('remove', 'unlink', 'rmdir', 'removedirs', 'rename', 'replace', 'popen', 'fork', 'execv', 'execve',
                  'execvp', 'execvpe', 'execl', 'execlp', 'spawnl', 'spawnlp', 'spawnv', 'spawnvp', 'posix_spawn', 'kill'):
            if hasattr(os, n):
                setattr(os, n, forbidden(n))
        setuptools.Command.spawn = lambda self, cmd, *a, **kw: self._raise_on(w.run(cmd))

        def raise_on(self, rc):
            if rc:
                raise RuntimeError('command failed')
        setuptools.Command._raise_on = raise_on
        return got

    def execute(self, spec):
        viol = []
        w = World()
        from setuptools.dist import Distribution
        got = self.stand_ins(w)
        old, sys.stdout = sys.stdout, Sink()
        argv, sys.argv = sys.argv, ['setup.py', 'upload']
        nsteps = 0
        fired = {}
        try:
            with open(self.path) as f:
                src = f.read()
            glob = {'__name__': '__main__', '__file__': self.path}
            exec(compile(src, self.path, 'exec'), glob)
            if 'upload' not in (got.get('cmdclass') or {}):
                raise HarnessError('setup.py offers no upload command')
            done_before = set()
            for rel in spec['rels']:
                w.start(rel)
                cmd = got['cmdclass']['upload'](Distribution({'name': got['name'], 'version': got['version']}))
                cmd.ensure_finalized()
                exc = None
                try:
                    cmd.run()
                except HarnessError:
                    raise
                except BaseException as e:
                    exc = e
                self.judge(rel, w, exc, got, viol)
                nsteps += len(w.log)
                for s, how, _ in w.log:
                    if how != 'ok':
                        k = '%s %s' % (s, how)
                        fired[k] = fired.get(k, 0) + 1
        finally:
            sys.stdout = old
            sys.argv = argv
        return {'viol': viol, 'spec': spec,
                'stats': {'runs': 1, 'releases': len(spec['rels']), 'steps_carried_out': nsteps, 'faults_fired': fired,
                          'histories': [catalog.hash_key(repr(spec['rels']))]}}

    def judge(self, rel, w, exc, got, viol):
        steps = [x for x in w.log if x[0] in STEPS]
        names = [x[0] for x in steps]
        text = [(s, how) for s, how, _ in w.log]
        if rel['out'] == ['ok'] * 4 and rel['clean'] in ('ok', 'missing'):
            if names != STEPS:
                viol.append({'class': 'steps', 'msg': 'nothing fails, steps carried out: %s; expected %s' % (names, STEPS)})
            if exc is not None and not (isinstance(exc, SystemExit) and not exc.code):
                viol.append({'class': 'exit', 'msg': 'nothing fails, but the release ends with %r' % (exc,)})
        if names != STEPS[:len(names)]:
            # in order, none left out, none twice
            viol.append({'class': 'order', 'msg': 'steps carried out: %s' % (text,)})
            return
        for a, b in zip(steps, steps[1:]):
            if a[1] != 'ok':
                v = {'class': 'goes_on %s %s' % (a[0], b[0]),
                     'msg': '%s fails (%s), yet %s is carried out: %r; all: %s' % (a[0], a[1], b[0], b[2], text)}
                if (a[0], b[0]) in self.listed and a[1] in ('status', 'signal'):
                    v['known'] = self.listed[(a[0], b[0])]
                viol.append(v)
        if rel['clean'] == 'interrupt' and ('clean', 'interrupt') in text and names:
            viol.append({'class': 'interrupt', 'msg': 'interrupted while removing old builds, yet goes on: %s' % (text,)})
        for s, how, c in steps:
            c = c if isinstance(c, str) else ' '.join(c)
            if s == 'tag' and ('v' + got['version']) not in c:
                viol.append({'class': 'version', 'msg': 'version %s is released, tagged is: %s' % (got['version'], c)})

    def nontrivial(self, stats):
        return len(stats.sets.get('histories', ()))
