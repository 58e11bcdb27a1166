"""A controlled executor: commands are stand-ins that run when the scheduler says so.

`explore(once, limit)` enumerates every schedule: `once(sched)` runs one history with all choices taken by `sched.choose(n)`;
the first choice points (up to `limit`) are all branched on, the rest take the default."""
from concurrent.futures import Future
import builtins


class Future2(object):
    """Stands for the Future of a command. Asking whether it is done is a scheduling point."""

    def __init__(self, sched, job):
        self.sched, self.job = sched, job

    def done(self):
        self.sched.point()
        return self.job.result is not None

    def cancelled(self):
        return False

    def exception(self, timeout=None):
        return None

    def result(self, timeout=None):
        assert self.job.result is not None, 'result of a running command used'
        return self.job.result


class Job(object):
    def __init__(self, n, args, kw):
        self.n, self.args, self.kw, self.result = n, args, kw, None


class Stuck(Exception):
    pass


class Scheduler(object):
    """on_start(job), on_finish(job) -> returncode are given by the check."""

    def __init__(self, prefix, limit, on_start, on_finish, max_points=3000):
        self.prefix, self.limit = prefix, limit
        self.trace = []              # (options, choice)
        self.jobs = []
        self.on_start, self.on_finish = on_start, on_finish
        self.points = 0
        self.max_points = max_points

    def choose(self, n):
        """One of n options; option 0 is the default."""
        k = len(self.trace)
        if k >= self.limit or n == 1:
            return 0
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((n, c))
        return c if c < n else 0

    def running(self):
        return [j for j in self.jobs if j.result is None]

    def point(self):
        """Nothing happens, or one of the running commands finishes. By default the oldest one does."""
        self.points += 1
        if self.points > self.max_points:
            raise Stuck('the build is still being driven after %d scheduling points' % self.points)
        run = self.running()
        if not run:
            return
        c = self.choose(len(run) + 1) if len(self.trace) < self.limit else 0
        if c == len(run):
            return
        self.finish(run[c])

    def finish(self, job):
        from disseminate.builders.executor import PopenResult
        rc = self.on_finish(job)
        job.result = PopenResult(returncode=rc, args=job.args, stdout='', stderr='')

    # the executor
    def submit(self, fn, *a, **kw):
        job = Job(len(self.jobs), kw.get('args', a), kw)
        self.jobs.append(job)
        self.on_start(job)
        return Future2(self, job)


def explore(once, limit, cap=None):
    """once(prefix, limit) -> Scheduler. Yields the number of schedules run."""
    prefix, n = [], 0
    while True:
        s = once(prefix, limit)
        n += 1
        t = s.trace
        # next: increment the last choice that can be incremented
        i = len(t) - 1
        while i >= 0 and t[i][1] + 1 >= t[i][0]:
            i -= 1
        if i < 0:
            return n
        prefix = [c for _, c in t[:i]] + [t[i][1] + 1]
        if cap and n >= cap:
            raise RuntimeError('more than %d schedules' % cap)
