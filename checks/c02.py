"""C02: a build with nothing to do does nothing.

For every set of targets and every single edit (made in the same or in a new process), once a build has completed, the
project must report that nothing is to be built and build without starting a command or writing a file: in the same
process (as the server does), and in a new process (as the command line does), and again after that."""
import itertools
import os
import mc
import build
import c01
from mc import Outcome

PID = 'C02'
LEVEL = 'model_checking'
RULE = ('all non-empty subsets of the 6 targets for a project of 4 documents, and all histories of at most 1 (quick) or 2 '
        '(thorough) of 20 edits of the sources with each build in the same or a new process; after each completed build, '
        '4 further builds (same process, new process, same, new) are observed: reported needs and statuses, commands '
        'started, and the identity, modification time and contents of every file')
ASSUMPTIONS = c01.ASSUMPTIONS + ['the files of the decider database are not counted as files of the build']
CASE_TIMEOUT = 600
TARGETS = ['html', 'tex', 'xhtml', 'txt', 'pdf', 'epub']
PRJ = {}


def sources(state):
    s = dict(state)
    f = c01.sources(s)
    t = s.get('targets')
    if t:
        f['a.dm'] = f['a.dm'].replace('targets: html, tex, xhtml, pdf, epub', 'targets: ' + ', '.join(t))
    return f


def setup():
    build.install()
    PRJ['p'] = build.Project(sources)


def cases(tier):
    for n in range(1, len(TARGETS) + 1):
        for t in itertools.combinations(TARGETS, n):
            yield dict(targets=list(t), edits=[])
    for e in c01.TOGGLES:
        for m in 'SN':
            yield dict(targets=None, edits=[[e, m]])
    if tier != 'quick':
        for t in itertools.combinations(TARGETS, 2):
            for e in c01.TOGGLES:
                if e != 'template':
                    for m in 'SN':
                        yield dict(targets=list(t), edits=[[e, m]])
        for e1, e2 in itertools.product(c01.TOGGLES, repeat=2):
            for p in itertools.product('SN', repeat=2):
                yield dict(targets=None, edits=[[e1, p[0]], [e2, p[1]]])


def snap(prj):
    files = build.snapshot(prj.out, skip=(), stat=True)
    return {k: v for k, v in files.items() if not k.startswith('.cache/md5decider')}


def run(case):
    oc = Outcome()
    prj = PRJ['p']
    state = dict(c01.BASE)
    state['targets'] = case['targets']
    prj.close()
    if case['targets']:
        prj.reset(state)
        st = prj.build('N')
    else:
        prj.reset_built(state)
        st = prj.build('N')
    oc.transitions += 1
    hist = [tuple(case['targets'] or ['default'])]
    for e, m in case['edits']:
        c01.apply(prj, e)
        st = prj.build(m)
        hist.append('%s/%s' % (e, m))
        oc.transitions += 1
    if not oc.expect(st == 'done', 'status:%s' % st, '%s: %r' % (hist, st)):
        return oc
    before = snap(prj)
    oc.state((sorted(state.items(), key=str), sorted((k, mc.h(repr(v[2]))) for k, v in before.items())))
    for mode in 'SNSN':
        hist.append('again/' + mode)
        del build.RUNS[:]
        if mode == 'N':
            prj.new()
        env = prj.env
        docs = env.root_document.documents_list(recursive=True)
        need = [(str(d.src_filepath.subpath), t) for d in docs for t, b in d.context['builders'].items() if b.build_needed()]
        rb = env.create_root_builder()
        stats = [(str(d.src_filepath.subpath), t, b.status) for d in docs for t, b in d.context['builders'].items()
                 if b.status != 'done']
        oc.expect(not stats and rb.status == 'done', 'status-before:%s:%s' % (mode, stats[0][1] if stats else ''),
                  '%s: before the build, the builders are not done: %s' % (hist, stats[:6]))
        oc.expect(not any(d.build_needed() for d in docs), 'needed:%s' % mode,
                  '%s: documents report that a build is needed: %s' % (hist, need[:6]))
        st = prj.build_cli() if mode == 'N' else prj.build_same()
        oc.transitions += 1
        oc.expect(st == 'done', 'again:%s' % mode, '%s: the status is %r' % (hist, st))
        oc.expect(not build.RUNS, 'commands:%s' % mode, '%s: commands are started: %s' % (hist, build.RUNS[:3]))
        after = snap(prj)
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        oc.expect(not diff, 'files:%s:%s' % (mode, os.path.splitext(diff[0])[1] if diff else ''),
                  '%s: files are written: %s' % (hist, diff[:8]))
        if oc.violations:
            break
    oc.traces += 1
    prj.close()
    return oc
