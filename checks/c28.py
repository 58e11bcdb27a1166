"""C28: exactly the requested target files are produced for every document.

All assignments of target settings to the documents of a chain of includes are built by the real code, and all changes of
one setting between two builds; the files found in the output directory are compared with the requested ones."""
import itertools
import os
import mc
import build
from mc import Outcome

PID = 'C28'
LEVEL = 'model_checking'
RULE = ('all assignments of 12 target settings (quick: 8 for the second and 3 to 5 for the third document) to 3 documents (a.dm includes b.dm, b.dm includes sub/c.dm; '
        'and both included by a.dm), each built from scratch; all changes of the setting of one document between two builds, '
        'with the second build in the same or a new process (thorough: from all assignments of 4 settings to the others)')
ASSUMPTIONS = ['the epub format is produced for the root document of the project only (it holds all documents)',
               'external commands are stand-ins']
CASE_TIMEOUT = 600
SETTINGS = [None, 'html', 'tex', 'html, tex', 'none', 'pdf', 'txt', 'tex; pdf', 'xhtml', 'html, epub', '.html,.txt', '']
LIST = dict(zip(SETTINGS, [None, ['html'], ['tex'], ['html', 'tex'], [], ['pdf'], ['txt'], ['tex', 'pdf'], ['xhtml'],
                           ['html', 'epub'], ['html', 'txt'], []]))
PRJ = {}
DOCS = ['a', 'b', 'sub/c']


def sources(state):
    shape, sets = state['shape'], state['sets']
    f = {}
    inc = {'chain': {'a': ['b.dm'], 'b': ['sub/c.dm']}, 'flat': {'a': ['b.dm', 'sub/c.dm']}}[shape]
    for d, s in zip(DOCS, sets):
        hdr = [] if s is None else ['targets: ' + s if s else 'targets:']
        hdr.append('title: ' + d[-1].upper())
        if d in inc:
            hdr += ['include:'] + ['  ' + i for i in inc[d]]
        f[d + '.dm'] = '---\n' + '\n'.join(hdr) + '\n---\n@chapter{Chapter of %s}\nThe words of %s.\n' % (
            d[-1].upper(), d[-1].upper())
    return f


def setup():
    build.install()
    PRJ['p'] = build.Project(sources)


def cases(tier):
    small = SETTINGS if tier != 'quick' else SETTINGS[:7] + ['html, epub']
    for shape in ('chain', 'flat'):
        for s1, s2 in itertools.product(SETTINGS, small):
            yield dict(shape=shape, kind='new', sets=[s1, s2], third=small if tier != 'quick' else [None, 'tex', 'none', 'html, epub'] if shape == 'chain' else [None, 'none'])
    rest = [(None, None)] if tier == 'quick' else list(itertools.product([None, 'html', 'tex', 'pdf'], repeat=2))
    for r in rest:
        for d in range(3):
            for s in SETTINGS:
                yield dict(shape='chain', kind='change', doc=d, first=s, rest=list(r))


def wanted(shape, sets):
    res = {}
    got = {}
    parent = dict(chain={1: 0, 2: 1}, flat={1: 0, 2: 0})[shape]
    for n, d in enumerate(DOCS):
        t = LIST[sets[n]]
        if t is None:
            t = got[parent[n]] if n else ['html']
        got[n] = t
        for x in t:
            if x != 'epub' or n == 0:
                res['%s/%s.%s' % (x, d, x)] = d
    return res


def files(out, stat=False):
    s = build.snapshot(out, stat=stat)
    return {k: v for k, v in s.items() if '/media/' not in k}


def compare(oc, got, want, what, key):
    miss, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    oc.expect(not miss, 'missing:%s:%s' % (key, os.path.splitext((miss or [''])[0])[1]), '%s: %s not created' % (what, miss))
    oc.expect(not extra, 'extra:%s:%s' % (key, os.path.splitext((extra or [''])[0])[1]), '%s: %s created' % (what, extra))
    for k, d in want.items():
        if k in got and not k.endswith(('.pdf', '.epub')):
            words = [n for n in 'ABC' if b'The words of %s.' % n.encode() in got[k]]
            oc.expect(words == [d[-1].upper()], 'contents:' + key, '%s: %s has the words of %s' % (what, k, words))


def run(case):
    oc = Outcome()
    prj = PRJ['p']
    if case['kind'] == 'new':
        for s3 in case['third']:
            sets = case['sets'] + [s3]
            prj.reset(dict(shape=case['shape'], sets=tuple(sets)))
            st = prj.build('N')
            want = wanted(case['shape'], sets)
            oc.expect(st == 'done', 'status', '%s: the build gives %s' % (sets, st))
            got = files(prj.out)
            compare(oc, got, want, repr(sets), 'new')
            oc.state((case['shape'], sorted(got)))
            oc.transitions += 1
            oc.traces += 1
            prj.close()
    else:
        for s2 in SETTINGS:
            for mode in 'SN':
                sets = list(case['rest'])
                sets.insert(case['doc'], case['first'])
                prj.reset(dict(shape='chain', sets=tuple(sets)))
                prj.build('N')
                before = files(prj.out, stat=True)
                sets2 = list(sets)
                sets2[case['doc']] = s2
                prj.put(dict(shape='chain', sets=tuple(sets2)))
                st = prj.build(mode)
                what = '%s then %s in the %s process' % (sets, sets2, dict(S='same', N='new')[mode])
                oc.expect(st == 'done', 'status', '%s: the build gives %s' % (what, st))
                want = wanted('chain', sets2)
                after = files(prj.out, stat=True)
                # files of formats that are no longer requested may stay, as they are
                got = {k: v[2] for k, v in after.items() if k in want or before.get(k) != v}
                compare(oc, got, want, what, 'change' + mode)
                oc.state((sets, sets2, sorted(after)))
                oc.transitions += 2
                oc.traces += 1
                prj.close()
    return oc
