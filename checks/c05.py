"""C05: a build killed at any point is repaired by the next build.

A preloaded library (lib/fsmc.c) stops the build before every system call that changes a file below the output directory
(and in the middle of every write), and the files are recorded. Each distinct recorded state is what a process killed at
that point leaves: it is put back, a build is made as a new process would, and every file is compared with those of a
clean build of the sources."""
import itertools
import os
import subprocess
import sys
import tempfile
import mc

PID = 'C05'
LEVEL = 'model_checking'
RULE = ('every point before a system call changing a file of the output directory, and the middle of every write, of: an initial '
        'build and builds after each of 2 (quick) or 25 (thorough) edits of the project of 4 documents and all targets; followed by a new build with the '
        'same sources or with the edit undone, compared with a clean build; points between two changes of the '
        'decider database are only explored in the thorough tier; in the thorough tier builds that repair are themselves '
        'killed at every point')
ASSUMPTIONS = ['a killed process leaves what it has written (no loss of pages, no reordering)',
               'commands are stand-ins in the same process, killed with it']
CASE_TIMEOUT = 890
DEADLINE = dict(quick=700, thorough=7000)


def preload():
    """Runs this check again with the library loaded."""
    d = tempfile.mkdtemp(prefix='dmmc-so-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')
    so = os.path.join(d, 'fsmc.so')
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'fsmc.c')
    subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-o', so, src, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so, FSMC_DIR=d)
    rc = subprocess.call([sys.executable, '-W', 'ignore'] + sys.argv, env=env)
    os.unlink(so)
    os.rmdir(d)
    sys.stdout.flush()
    os._exit(rc if rc >= 0 else 2)


import ctypes       # noqa
LIB = ctypes.CDLL(None)
if not hasattr(LIB, 'fsmc_present'):
    preload()
os.environ.pop('LD_PRELOAD', None)

import build        # noqa
import c01          # noqa
from mc import Outcome      # noqa

PRJ = {}
PARTS = 8


def setup():
    build.install()
    PRJ['p'] = build.Project(c01.sources)


def cases(tier):
    edits = [None, 'a_body', 'img'] if tier == 'quick' else \
        [None] + [e for e in c01.TOGGLES] + c01.BREAKS
    for e in edits:
        for j in range(PARTS):
            yield dict(edit=e, part=j, db=tier != 'quick', again=tier != 'quick' and e in (None, 'a_body', 'img'))


def files(out, memo):
    res = {}
    for base, dirs, names in os.walk(out):
        for d in dirs:
            res[os.path.relpath(os.path.join(base, d), out)] = None
        for f in names:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                data = fh.read()
            st = os.stat(p)
            res[os.path.relpath(p, out)] = (memo.setdefault(data, data), st.st_mtime_ns)
    return res


def restore(out, state):
    build.wipe(out)
    for k in sorted(state):
        p = os.path.join(out, k)
        if state[k] is None:
            os.makedirs(p, exist_ok=True)
    for k, v in state.items():
        if v is not None:
            p = os.path.join(out, k)
            with open(p, 'wb') as f:
                f.write(v[0])
            os.utime(p, ns=(v[1], v[1]))


def key(state):
    return mc.h(sorted((k, None if v is None else mc.h(repr(v[0]))) for k, v in state.items()))


def is_db(name):
    return '.cache/md5decider' in name


def record(prj, part, parts, db, limit=None):
    """Builds in a forked process; yields the states in which the process may have died (of this part)."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    prj.close()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r1)
            os.close(w2)
            LIB.fsmc_arm(ctypes.c_char_p(prj.out.encode() + b'/'), w1, r2)
            st = prj.build('N')
            LIB.fsmc_disarm()
            prj.close()
            os._exit(0 if st == 'done' else 3)
        except BaseException:
            os._exit(4)
    os.close(w1)
    os.close(r2)
    points, seen, memo = [], set(), {}
    n, prev, total = 0, '', 0
    with os.fdopen(r1, 'r') as f:
        for line in f:
            kind, call, name = line.rstrip('\n').split(' ', 2)
            total += 1
            if db or not (is_db(name) and (is_db(prev) or kind == '~')):
                n += 1
                if n % parts == part:
                    state = files(prj.out, memo)
                    k = key(state)
                    if k not in seen:
                        seen.add(k)
                        points.append(('%s %s %s' % ('before' if kind == '.' else 'in', call,
                                                     os.path.relpath(name, prj.out)), k, state))
            prev = name
            os.write(w2, b'x')
    os.close(w2)
    rc = os.waitpid(pid, 0)[1]
    return total, points, rc


def check(oc, prj, what, tag):
    try:
        st = prj.build('N')
    except Exception as e:
        st = '%s: %s' % (type(e).__name__, str(e)[:200])
    oc.transitions += 1
    cst, want = prj.clean(prj.state)
    if not oc.expect(st == cst, 'status:' + tag, 'killed %s: the next build gives %r, a clean build %r' % (what, st, cst)):
        return
    got = build.snapshot(prj.out)
    bad = [k for k in sorted(want) if got.get(k) != want[k]]
    if bad:
        a, b = got.get(bad[0]), want[bad[0]]
        oc.fail('differs:%s:%s' % (tag, os.path.splitext(bad[0])[1]),
                'killed %s: after the next build %s differ from a clean build: %r, not %r' %
                (what, bad[:6], a if a is None else a[:300], b[:300]))
    oc.traces += 1


def run(case):
    oc = Outcome()
    prj = PRJ['p']
    e = case['edit']
    base = dict(c01.BASE)
    if e is None:
        prj.reset(base)
    else:
        prj.reset_built(base)
        c01.apply(prj, e)
    first = files(prj.out, {})
    state = prj.state
    total, points, rc = record(prj, case['part'], PARTS, case['db'])
    tag = str(e)
    oc.expect(rc == 0, 'recorded:' + tag, 'the build after %s failed (%s)' % (e, rc))
    oc.merge_info(points=total if case['part'] == 0 else 0, distinct_states=len(points))
    for what, k, st in points:
        oc.state((tag, k))
        restore(prj.out, st)
        check(oc, prj, 'in the build after %s %s' % (e, what), tag)
        prj.close()
        if state != base:
            # the edit is undone before the next build
            restore(prj.out, st)
            prj.put(base)
            check(oc, prj, 'in the build after %s %s, edit undone' % (e, what), tag + ':undone')
            prj.close()
            prj.put(state)
        if len(oc.violations) > 5:
            return oc
    if case['again']:
        for what, k, st in points[::10]:
            restore(prj.out, st)
            _, points2, _ = record(prj, 0, 1, False)
            for what2, k2, st2 in points2:
                if oc.state((tag, k, k2)):
                    pass
                restore(prj.out, st2)
                check(oc, prj, 'in the build after %s %s, then %s' % (e, what, what2), tag + ':twice')
                prj.close()
            if len(oc.violations) > 5:
                return oc
    return oc
