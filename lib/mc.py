"""Bounded exhaustive exploration of the real code: the driver shared by all checks.

A check module (checks/cNN.py) provides

    PID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> iterator over *all* cases of the bounded space (plain JSON values), simplest first
    run(case)        -> Outcome: executes the case on the real code and compares with the reference

The driver enumerates every case (round-robin over worker processes), never samples, writes
evidence/<PID>.json with what was measured, and prints VIOLATION / KNOWN-FINDING lines.
"""
import sys, os, json, time, hashlib, tempfile, shutil, traceback, importlib, logging, gc, signal, mmap

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')     # another tree only during development
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))


NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
DEADLINE = dict(quick=600.0, thorough=6 * 3600.0)


def h(obj):
    """Short stable hash of a JSON-able / repr-able object."""
    try:
        s = json.dumps(obj, sort_keys=True, default=repr)
    except (TypeError, ValueError):
        s = repr(obj)
    return hashlib.sha1(s.encode('utf-8', 'backslashreplace')).hexdigest()[:14]


class Outcome(object):
    """What one case did."""
    __slots__ = ('states', 'transitions', 'traces', 'violations', 'nontrivial', 'info')

    def __init__(self):
        self.states = set()       # canonical hashes of the distinct states / observed outcomes
        self.transitions = 0      # operations applied to the real code
        self.traces = 0           # complete histories executed on the real code and compared
        self.violations = []      # (key, detail)
        self.nontrivial = 0       # non-trivial sub-cases by the check's rule
        self.info = {}

    def state(self, obj):
        self.states.add(h(obj))

    def fail(self, key, detail):
        self.violations.append((str(key), str(detail)[:4000]))

    def expect(self, cond, key, detail):
        if not cond:
            self.fail(key, detail)
        return cond

    def merge_info(self, **kw):
        for k, v in kw.items():
            self.info[k] = self.info.get(k, 0) + v


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


_scratch = None


def scratch():
    """The scratch directory of this process (made by the driver, removed by it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='dmmc-%d-' % os.getpid(), dir=scratch_base())
    return _scratch


def newdir(tag='d'):
    return tempfile.mkdtemp(prefix=tag + '-', dir=scratch())


def rmdir(d):
    """Remove a directory that newdir() made (nothing else)."""
    d = os.path.abspath(str(d))
    if d.startswith(scratch() + os.sep):
        shutil.rmtree(d, ignore_errors=True)


class Hang(BaseException):
    """A case that does not terminate."""


def _on_alarm(signum, frame):
    raise Hang('the case did not terminate')


def worker(mod, all_cases, shard, nshards, wfd, deadline, current):
    """Runs every nshards-th case and reports one JSON line per interesting event."""
    out = os.fdopen(wfd, 'w')
    timeout = getattr(mod, 'CASE_TIMEOUT', 240)
    signal.signal(signal.SIGALRM, _on_alarm)
    states = set()
    tot = dict(cases=0, transitions=0, traces=0, nontrivial=0, capped=0)
    info = {}
    nviol = 0
    samples = []
    try:
        if hasattr(mod, 'setup'):
            mod.setup()
        for i, case in all_cases():
            if i % nshards != shard:
                continue
            if time.time() > deadline:
                tot['capped'] += 1
                continue
            current[shard * 8:shard * 8 + 8] = (i + 1).to_bytes(8, 'little')
            signal.setitimer(signal.ITIMER_REAL, timeout)
            try:
                oc = mod.run(case)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                oc = Outcome()
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if REPO + '/src' in f.filename]
                loc = where[-1].name if where else tb[-1].name
                oc.fail('exception:%s:%s' % (type(e).__name__, loc),
                        ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:])
            current[shard * 8:shard * 8 + 8] = bytes(8)
            tot['cases'] += 1
            tot['transitions'] += oc.transitions
            tot['traces'] += oc.traces
            tot['nontrivial'] += oc.nontrivial
            for k, v in oc.info.items():
                info[k] = info.get(k, 0) + v
            states |= oc.states
            if len(samples) < 2 and (tot['cases'] in (1, 7)):
                samples.append(case)
            for key, detail in oc.violations:
                nviol += 1
                if nviol <= 200:
                    out.write(json.dumps(dict(t='v', i=i, case=case, key=key, detail=detail), default=repr) + '\n')
            if tot['cases'] % 200 == 0:
                gc.collect()
        out.write(json.dumps(dict(t='end', tot=tot, info=info, nviol=nviol, states=sorted(states), samples=samples),
                             default=repr) + '\n')
        out.flush()
    except BaseException:
        out.write(json.dumps(dict(t='crash', tb=traceback.format_exc())) + '\n')
        out.flush()
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
        out.close()


def load_findings(pid):
    path = os.path.join(ROOT, 'known_findings.txt')
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, what = rest[4:].partition(' ')
                    keys[key] = what
    return keys


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in DEADLINE:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    mod = importlib.import_module(pid.lower())

    if len(argv) > 2 and argv[1] in ('--replay', '--one'):
        case = json.load(open(argv[2]))['case'] if argv[1] == '--replay' else json.loads(argv[2])
        if hasattr(mod, 'setup'):
            mod.setup()
        try:
            oc = mod.run(case)
        finally:
            if _scratch:
                shutil.rmtree(_scratch, ignore_errors=True)
        print(json.dumps(dict(case=case, violations=oc.violations, info=oc.info, transitions=oc.transitions),
                         indent=1, default=repr))
        return 1 if oc.violations else 0

    limit = getattr(mod, 'DEADLINE', {}).get(tier, DEADLINE[tier])
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', limit))

    def all_cases():
        return enumerate(mod.cases(tier))

    nproc = getattr(mod, 'NPROC', NPROC)
    nproc = min(nproc, NPROC) or 1
    current = mmap.mmap(-1, 8 * nproc)     # the case each worker is running
    procs = []
    sys.stdout.flush()
    for s in range(nproc):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try:
                devnull = os.open('/dev/null', os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(devnull, 2)
                worker(mod, all_cases, s, nproc, w, deadline, current)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((p, r))

    import threading
    lines = [[] for _ in procs]

    def reader(k, fd):
        with os.fdopen(fd) as f:
            for line in f:
                lines[k].append(line)
    ths = [threading.Thread(target=reader, args=(k, r)) for k, (p, r) in enumerate(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    status = []
    for p, r in procs:
        try:
            status.append(os.waitpid(p, 0)[1])
        except OSError:
            status.append(0)

    viol, states, samples, info = [], set(), [], {}
    tot = dict(cases=0, transitions=0, traces=0, nontrivial=0, capped=0)
    broken = []
    nviol = 0
    for k, ls in enumerate(lines):
        ended = False
        for line in ls:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d['t'] == 'v':
                viol.append(d)
            elif d['t'] == 'end':
                ended = True
                nviol += d['nviol']
                for x in tot:
                    tot[x] += d['tot'][x]
                for x, v in d['info'].items():
                    info[x] = info.get(x, 0) + v
                states |= set(d['states'])
                samples += d['samples']
            elif d['t'] == 'crash':
                broken.append(d['tb'])
        if not ended and os.WIFSIGNALED(status[k]) and os.WTERMSIG(status[k]) != signal.SIGKILL:
            # the code under test brought the interpreter down (a stack overflow, for example)
            idx = int.from_bytes(current[k * 8:k * 8 + 8], 'little') - 1
            case = next((c for i, c in all_cases() if i == idx), None)
            if case is not None:
                viol.append(dict(i=idx, case=case, key='crash:signal%d' % os.WTERMSIG(status[k]),
                                 detail='the process running this case was killed by signal %d' %
                                        os.WTERMSIG(status[k])))
        if not ended:
            broken.append('worker %d ended without a result' % k)

    # checks over the whole run (e.g. distinctness across cases)
    if hasattr(mod, 'finish') and not broken:
        for key, detail, case in mod.finish(tier):
            viol.append(dict(i=-1, case=case, key=key, detail=detail))

    findings = load_findings(pid)
    new, seen_known = [], {}
    for d in sorted(viol, key=lambda d: d['i']):
        if d['key'] in findings:
            seen_known.setdefault(d['key'], d)
        else:
            new.append(d)

    wall = time.time() - t0
    level = mod.LEVEL
    cov = dict(rule=mod.RULE, samples=samples[:6], exhaustive=tot['capped'] == 0 and not broken)
    if level == 'model_checking':
        cov.update(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['traces'], distinct_nontrivial=len(states), operations=tot['transitions'])
    if tot['nontrivial']:
        cov['nontrivial_cases'] = tot['nontrivial']
    if tot['capped']:
        cov['cases_not_run_deadline'] = tot['capped']
    cov['drivers_run'] = tot['cases']
    cov['details'] = info
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)

    for key in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, findings[key]))
    bykey = {}
    for d in new:
        bykey.setdefault(d['key'], d)
    if os.environ.get('VERIF_DEBUG'):
        print('KEYS %r' % sorted(bykey))
        for k, d in bykey.items():
            n = sum(x['key'] == k for x in new)
            print('KEY %s x%d: %s' % (k, n, d['detail'][-700:]))
    for n, (key, d) in enumerate(list(bykey.items())[:5]):
        rp = os.path.join(ROOT, 'evidence', 'replay-%s-%d.json' % (pid, n))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, key=key, case=d['case'], detail=d['detail'],
                           how='/verif/run.sh %s --replay %s' % (pid, rp)), f, indent=1, default=repr)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  key=%s case=%s' % (key, json.dumps(d['case'], default=repr)[:600]))
        print('  ' + d['detail'][:1500].replace('\n', '\n  '))
    print('%s tier=%s cases=%d traces=%d states=%d transitions=%d violations=%d capped=%d wall=%.1fs %s' %
          (pid, tier, tot['cases'], tot['traces'], len(states), tot['transitions'], len(new), tot['capped'], wall,
           json.dumps(info)))
    if new:
        return 1
    if broken:
        print('ERROR: ' + '\n'.join(broken)[-3000:])
        return 2
    if tot['cases'] == 0:
        print('ERROR: nothing explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.modules['mc'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
