"""C18: signal receivers run once each in the declared order.

Explicit-state search (BFS over operation histories, deduplicated on the reference-model state): every transition
replays the whole history on fresh real Signal objects and compares each emit with the model."""
import gc
import weakref
from mc import Outcome

PID = 'C18'
LEVEL = 'model_checking'
RULE = ('BFS over histories of connect(signal, receiver, order, weak)/drop receiver/reset/emit on two named signals; '
        'a state is the map order->receiver per signal plus the set of live receivers; every transition is executed '
        'on fresh real signals and followed by an emit of both; separately every on/off assignment of the steps of '
        'tag processing, and re-entrant receivers that connect or reset during an emit')
ASSUMPTIONS = ['a dead weakly-held receiver may yield a None placeholder or nothing, and its order may be reused or not',
               'orders are drawn from -1, 9, 10, 100']

ORDERS = (10, 9, 100, -1)


def alphabet(tier):
    ops = []
    for s in 'AB':
        recs = (0, 1, 2) if s == 'A' else (0, 1)
        orders = ORDERS if s == 'A' and tier == 'thorough' else (ORDERS[:3] if s == 'A' else ORDERS[:2])
        for r in recs:
            for o in orders:
                ops.append(['connect', s, r, o, True])
        ops.append(['connect', s, 0, 9, False])
        ops.append(['connect', s, 2, 100, False])
        ops.append(['reset', s])
    for r in (0, 1):
        ops.append(['drop', r])
    return ops


def cases(tier):
    for t in range(8):
        yield dict(kind='tag', mask=t)
    for k in range(4):
        yield dict(kind='reentrant', k=k)
    ops = alphabet(tier)
    depth = 4 if tier == 'quick' else 5
    for i, a in enumerate(ops):
        if a[0] != 'drop':
            yield dict(kind='hist', prefix=[a], depth=depth, drops=False, tier=tier)
        yield dict(kind='hist', prefix=[a], depth=depth - 1, drops=True, tier=tier)


# what the receivers return (results may be empty)
RESULTS = ['r0', [], 0]


class Model(object):
    def __init__(self):
        self.sig = {'A': {}, 'B': {}}     # order -> (receiver, weak)
        self.dead = set()          # collected
        self.dropped = set()       # no longer referenced by the driver

    def live(self, s):
        out = []
        for o in sorted(self.sig[s]):
            r, weak = self.sig[s][o]
            if r not in self.dead:
                out.append((o, r))
        return out

    def enabled(self, op):
        if op[0] == 'connect':
            if op[2] in self.dropped:
                return False
        if op[0] == 'drop':
            return not self.dropped
        return True

    def key(self):
        return (tuple(sorted((o, r, w) for o, (r, w) in self.sig['A'].items())),
                tuple(sorted((o, r, w) for o, (r, w) in self.sig['B'].items())), tuple(sorted(self.dead)), tuple(sorted(self.dropped)))


def execute(history, oc, check_from=0):
    from disseminate.signals.signals import Namespace
    from disseminate.signals.exceptions import DuplicateSignal
    ns = Namespace()
    names = {'A': 'alpha', 'B': 'beta'}
    calls = []

    def make(i):
        def receiver(**kw):
            calls.append((i, tuple(sorted(kw.items()))))
            return RESULTS[i]
        return receiver
    recs = {i: make(i) for i in range(3)}
    refs = {i: weakref.ref(f) for i, f in recs.items()}
    m = Model()
    for n, op in enumerate(history):
        oc.transitions += 1
        if op[0] == 'connect':
            _, s, r, o, weak = op
            sg = ns.signal(names[s])
            occupied = m.sig[s].get(o)
            occ_dead = (occupied is not None and occupied[0] in m.dead)
            try:
                if weak and r == 1:
                    sg.connect_via(order=o)(recs[r])
                else:
                    sg.connect(recs[r], order=o, weak=weak)
                raised = False
            except DuplicateSignal:
                raised = True
            if occupied is None:
                if raised:
                    oc.fail('refused-free-order', history)
                    return m
            elif not occ_dead and not raised:
                oc.fail('duplicate-order-accepted', history)
                return m
            if not raised:
                m.sig[s][o] = (r, weak)
        elif op[0] == 'drop':
            del recs[op[1]]
            gc.collect()
            gc.collect()
            m.dropped.add(op[1])
        elif op[0] == 'reset':
            ns.signal(names[op[1]]).reset()
            m.sig[op[1]] = {}
            if m.dropped:
                gc.collect()
        # liveness is what the garbage collector says, read through references of our own
        m.dead = {i for i, ref in refs.items() if ref() is None}
        for s in 'AB':
            del calls[:]
            sg = ns.signal(names[s])
            ret = sg.emit(x=n, y='v')
            want = m.live(s)
            got = [c[0] for c in calls]
            if got != [r for o, r in want]:
                oc.fail('wrong-receivers', dict(history=history, at=n, signal=s, got=got, want=want))
                return m
            if any(c[1] != (('x', n), ('y', 'v')) for c in calls):
                oc.fail('wrong-arguments', dict(history=history, calls=calls[:4]))
            if [v for v in ret if v is not None] != [RESULTS[r] for o, r in want]:
                oc.fail('wrong-results', dict(history=history, at=n, signal=s, got=ret, want=want))
            d = sg.receivers_dict()
            if sorted(d) != [o for o, r in want]:
                oc.fail('wrong-listing', dict(history=history, at=n, signal=s, got=sorted(d), want=want))
    oc.traces += 1
    return m


def run(case):
    oc = Outcome()
    if case['kind'] == 'tag':
        return run_tag(case, oc)
    if case['kind'] == 'reentrant':
        return run_reentrant(case, oc)
    ops = alphabet(case['tier'])
    if not case['drops']:
        ops = [o for o in ops if o[0] != 'drop']
    seen = set()
    frontier = [list(case['prefix'])]
    m = execute(frontier[0], oc)
    seen.add(m.key())
    oc.state(m.key())
    models = [(frontier[0], m)]
    for d in range(case['depth'] - 1):
        nxt = []
        for hist, m in models:
            for op in ops:
                if not m.enabled(op):
                    continue
                # canonical order of independent connects: keep one representative through state dedup
                m2 = execute(hist + [op], oc)
                if oc.violations:
                    return oc
                k = m2.key()
                if k not in seen:
                    seen.add(k)
                    oc.state(k)
                    nxt.append((hist + [op], m2))
        models = nxt
    return oc


def run_tag(case, oc):
    """The processing steps of a tag: each kind of tag may opt out of a step without affecting the others."""
    from disseminate.tags.signals import tag_created
    saved = dict(tag_created.receivers)
    try:
        tag_created.reset()
        calls = []

        def mk(nm):
            def f(tag, **kw):
                calls.append(nm)
                return nm
            f.__name__ = nm
            return f
        fs = [mk('process_a'), mk('process_b'), mk('process_c')]
        for f, o in zip(fs, (300, 20, 100)):
            tag_created.connect(f, order=o)

        class T(object):
            pass
        t = T()
        want = []
        for i, (o, f) in enumerate(sorted(zip((300, 20, 100), fs), key=lambda x: x[0])):
            if case['mask'] >> i & 1:
                setattr(t, f.__name__, False)
            else:
                want.append(f.__name__)
        ret = tag_created.emit(tag=t)
        oc.transitions += 1
        oc.traces += 1
        oc.state(('tag', case['mask'], calls))
        oc.expect(calls == want, 'tag-steps', (case, calls, want))
        oc.expect([r for r in ret if r is not None] == want, 'tag-steps-results', (case, ret, want))
    finally:
        tag_created.receivers.clear()
        tag_created.receivers.update(saved)
    return oc


def run_reentrant(case, oc):
    from disseminate.signals.signals import Namespace
    ns = Namespace()
    sg = ns.signal('s')
    log = []
    k = case['k']

    def late(**kw):
        log.append('late')

    def first(**kw):
        log.append('first')
        if k == 0:
            sg.connect(late, order=50, weak=False)
        elif k == 1:
            ns.signal('other').connect(late, order=1, weak=False)
        elif k == 2:
            ns.signal('other').emit()
        elif k == 3:
            raise KeyError('boom')

    def second(**kw):
        log.append('second')
    sg.connect(second, order=2, weak=False)
    sg.connect(first, order=1, weak=False)
    err = None
    try:
        sg.emit()
    except KeyError as e:
        err = e
    oc.transitions += 1
    oc.traces += 1
    oc.state((k, log))
    if k == 3:
        oc.expect(err is not None and log == ['first'], 'receiver-error-hidden', log)
    else:
        oc.expect([x for x in log if x != 'late'] == ['first', 'second'] and log.count('late') <= 1, 'reentrant', log)
    return oc
