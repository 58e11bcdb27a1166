"""C04: composite builds run in order, to the end, and report failures.

Every tree of sequential and parallel builders up to a size is driven (polling and blocking) under every schedule: at every
point where the driver looks at a running command, any running command or none finishes. Every command in turn fails
before writing, fails after writing half of its output, or succeeds without writing it."""
import itertools
import pathlib
import mc
import sched
from mc import Outcome
from c03 import Env

PID = 'C04'
LEVEL = 'model_checking'
CASE_TIMEOUT = 600
RULE = ('all trees of sequential and parallel builders with up to 4 commands (nesting 3), polling and blocking drivers, first '
        'build and rebuild over old outputs, no failure or one command failing in one of 3 ways; all choices at the first 5 '
        '(no failure) or 3 (failure) scheduling points; a state is (tree, commands started/finished, status)')
ASSUMPTIONS = ['commands write only their own output', 'commands finish only when the driver looks at one (a coarser schedule has the same effects)']

FAILS = ('early', 'late', 'nofile')


def shapes(n, kinds, depth):
    """Trees with n commands: 'x' or [kind, children]; q: chained sequence of commands."""
    if n == 1:
        yield 'x'
    if depth == 0:
        return
    for kind in kinds:
        if kind == 'Q':
            yield ['Q', ['x'] * n]
            continue
        for parts in partitions(n):
            if len(parts) == 1:
                continue
            for ch in itertools.product(*[list(shapes(p, [k for k in kinds if k != kind], depth - 1)) for p in parts]):
                yield [kind, list(ch)]


def partitions(n):
    if n == 0:
        yield []
    for k in range(1, n + 1):
        for rest in partitions(n - k):
            yield [k] + rest


def cases(tier):
    top = 5 if tier == 'thorough' else 4
    for n in range(1, top + 1):
        for t in shapes(n, ['S', 'P', 'Q'], 3):
            if t == 'x' or (n > 3 and tier == 'quick' and "['Q', ['x']]" in str(t)):
                continue
            # commands finish one at a time between rounds of a polling driver, in every order
            for perm in itertools.permutations(range(n)):
                yield [t, 'order', 0, None, None, n, list(perm)]
            for driver in ('poll', 'block'):
                for old in (0, 1):
                    yield [t, driver, old, None, None, n, 5 if n < 4 or tier == 'thorough' else 4]
                    for f in range(n):
                        for how in FAILS:
                            yield [t, driver, old, f, how, n, 3]


class Build(object):
    """The real builders of a tree."""

    nonce = 0

    def __init__(self, tree, d, env):
        from disseminate.builders.builder import Builder
        from disseminate.builders.composite_builders import ParallelBuilder, SequentialBuilder
        from disseminate.paths import SourcePath, TargetPath
        self.d, self.env = d, env
        Build.nonce += 1
        self.leaves = []
        self.before = []            # commands that must be finished before each command starts
        nonce = 'n%d' % Build.nonce

        class Cmd(Builder):
            action = 'tool -o {builder.outfilepath} {builder.infilepaths}'
            available = False
            priority = 1
            active_requirements = ('priority',)
            outfilepath_ext = '.out'

        class Plain(SequentialBuilder):
            """Like the builders of targets."""
            chain_on_creation = False
            copy = False
            clear_done = False
        self.cmd_cls = Cmd

        def src(i):
            p = SourcePath(project_root=d, subpath='s%d.in' % i)
            return p

        def make(t, before):
            if t == 'x':
                i = len(self.leaves)
                self.before.append(set(before))
                params = [src(i), nonce]
                if before and self.leaves[max(before)][1] is not None:
                    params.append(self.leaves[max(before)][1])
                out = TargetPath(target_root=d, subpath='o%d.out' % i)
                b = Cmd(env=env, parameters=params, outfilepath=out)
                self.leaves.append((b, out))
                return b, {i}
            kind, ch = t
            if kind == 'Q':
                # a chain: the builders get their inputs and outputs from each other, the last result is copied
                first = len(self.leaves)
                subs = []
                for k, _ in enumerate(ch):
                    c = Cmd(env=env)
                    c.outfilepath_append = '_%d' % (first + k)
                    c.use_cache = True
                    subs.append(c)
                    self.before.append(set(before) | set(range(first, first + k)))
                    self.leaves.append((c, None))
                out = TargetPath(target_root=d, subpath='o%d.out' % (first + len(ch) - 1))
                q = SequentialBuilder(env, parameters=[src(first), nonce], subbuilders=subs, outfilepath=out)
                for k, c in enumerate(subs):
                    self.leaves[first + k] = (c, c.outfilepath)
                self.copies.append((c.outfilepath, out, first + len(ch) - 1))
                return q, set(range(first, first + len(ch)))
            subs, done = [], set()
            for c in ch:
                b, ls = make(c, set(before) | done if kind == 'S' else set(before))
                subs.append(b)
                if kind == 'S':
                    done |= ls
                else:
                    done |= ls
            if kind == 'S':
                return Plain(env, subbuilders=subs, parameters=['seq', nonce, src(min(done))],
                             outfilepath=self.leaves[max(done)][1]), done
            return ParallelBuilder(env, subbuilders=subs), done
        self.copies = []
        self.root, _ = make(tree, set())
        self.out = [o for b, o in self.leaves]


def run_one(oc, case, d, env, prefix, limit):
    from disseminate.builders import builder as bmod
    from disseminate.builders.exceptions import BuildError
    tree, driver, old, fail, how, n, _ = case
    for p in list(d.glob('*.*')) + [q for q in (d / 'cache').glob('*.out')]:
        p.unlink()
    for i in range(n):
        (d / ('s%d.in' % i)).write_text('source %d' % i)
    b = Build(tree, d, env)
    if old:
        # outputs of an earlier version
        for o in b.out + [c[1] for c in b.copies]:
            o.write_text('old')
    index = {str(o): i for i, o in enumerate(b.out)}
    started, finished, log = [], [], []

    def which(job):
        return index[job.args[2]]

    def on_start(job):
        i = which(job)
        log.append('start %d' % i)
        oc.transitions += 1
        missing = b.before[i] - set(finished)
        oc.expect(not missing, 'order', '%r: command %d started before %r finished (%r)' % (case, i, sorted(missing), log))
        oc.expect(i not in started, 'twice', '%r: command %d started twice (%r)' % (case, i, log))
        started.append(i)
        if not (fail == i and how == 'early'):
            if not (fail == i and how == 'nofile'):
                b.out[i].write_text('par')
            elif b.out[i].exists():
                b.out[i].unlink()

    def on_finish(job):
        i = which(job)
        oc.transitions += 1
        log.append('finish %d' % i)
        if fail == i:
            log[-1] += ' (%s)' % how
            return 0 if how == 'nofile' else 1
        b.out[i].write_text('part and rest of %d' % i)
        finished.append(i)
        return 0

    s = sched.Scheduler(prefix, limit, on_start, on_finish)
    if driver == 'order':
        s.point = lambda: None
    saved, bmod.executor = bmod.executor, s
    status, first, polls = None, True, 0
    try:
        try:
            if driver == 'block':
                status = b.root.build(complete=True)
            else:
                while polls < 60:
                    can = [i for i in range(n) if b.before[i] <= set(finished)]
                    status = b.root.build(complete=False)
                    if "'Q'" not in str(tree) and (fail is None or fail not in started):
                        # whatever could be started before this round is started, also when other steps are running
                        oc.expect(set(can) <= set(started), 'parallel', '%r: only %r of %r started (%r)' %
                                  (case, started, can, log))
                    if first:
                        first = False
                        ready = [i for i in range(n) if not b.before[i]]
                        oc.expect(set(ready) <= set(started), 'parallel', '%r: only %r of %r started at first (%r)' %
                                  (case, started, ready, log))
                    log.append(status)
                    polls += 1
                    if driver == 'order' and s.running():
                        s.finish(min(s.running(), key=lambda j: limit.index(which(j))))
                    if status not in ('building', 'ready'):
                        break
        except BuildError as e:
            status = 'error'
        except sched.Stuck as e:
            status = 'stuck'
    finally:
        bmod.executor = saved
    what = '%r: status %r, schedule %r' % (case, status, log)
    if fail is None:
        oc.expect(status == 'done', 'not-done', what)
        oc.expect(sorted(finished) == list(range(n)), 'unfinished', what)
        oc.expect(not s.running(), 'left-running', what)
        for i in range(n):
            oc.expect(b.out[i].exists() and b.out[i].read_text() == 'part and rest of %d' % i, 'output', what)
        for src, dst, i in b.copies:
            oc.expect(dst.exists() and dst.read_text() == 'part and rest of %d' % i, 'copy', what)
        oc.expect(b.root.status == 'done', 'later-status', what)
        # built again by new builders: nothing to do
        b.again = len(started)
    elif how in ('early', 'late'):
        oc.expect(status == 'error', 'failure-hidden', what)
    else:
        oc.expect(status == 'missing (outfilepath)', 'missing-hidden', what)
    if fail is not None:
        after = [i for i in started if fail in b.before[i]]
        oc.expect(not after, 'after-failure', what)
    oc.traces += 1
    oc.state([tree, driver, old, sorted(started), sorted(finished), status, fail, how])
    return s


_env = {}


def run(case):
    oc = Outcome()
    if 'env' not in _env:
        d = pathlib.Path(mc.newdir('c04'))
        _env['env'] = (d, Env(d))
    d, env = _env['env']

    class Enough(Exception):
        pass

    def once(prefix, limit):
        s = run_one(oc, case, d, env, prefix, limit)
        if len(oc.violations) > 5:
            raise Enough()
        return s
    try:
        if case[1] == 'order':
            once([], case[6])
            k = 2
        else:
            k = sched.explore(once, case[6])
        oc.merge_info(schedules=k)
        oc.nontrivial += k > 1
    except Enough:
        pass
    return oc
