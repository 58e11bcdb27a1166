"""C08: label numbers follow document order and reset rules after any edit.

(a) every sequence of label kinds up to a length, distributed over three documents, registered through the real label
manager; (b) every history of edits to bodies, headers and include lists of a live project; each compared with a
reference count over the documents in project order; (c) lookups of every identifier spelling and duplicates."""
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C08'
LEVEL = 'model_checking'
RULE = ('all sequences of the 8 label kinds up to length 4 (quick) / 5 (thorough) with every distribution over three '
        'documents, registered with the real label manager; all edit histories of depth 2 (3 in thorough) over body '
        'variants of three documents, include orders, and label-reset and doc_id headers; a state is the assignment of '
        'bodies and include order; the oracle counts labels in document order with the reset rules')
ASSUMPTIONS = ['modification times strictly increase with edits']

HEAD = ('title', 'part', 'chapter', 'section', 'subsection', 'subsubsection')
KINDS = [('heading', k) for k in HEAD] + [('caption', 'figure'), ('caption', 'table')]
RESETS = {
    'part': {'chapter', 'section', 'subsection', 'subsubsection'},
    'chapter': {'section', 'subsection', 'subsubsection', 'figure', 'table'},
    'section': {'subsection', 'subsubsection'},
    'subsection': {'subsubsection'},
}
LEVELS = ('part', 'chapter', 'section', 'subsection', 'subsubsection')


def reference(seq, resets=RESETS):
    """seq: list of (doc_id, id, kind tuple, title) in document order -> list of full records."""
    count = {}
    cur = dict.fromkeys(LEVELS)
    out = []
    for doc_id, lid, kind, title in seq:
        order = []
        for k in kind:
            count[k] = count.get(k, 0) + 1
            for r in resets.get(k, ()):
                count[r] = 0
            order.append(count[k])
        rec = dict(doc=doc_id, id=lid, kind=list(kind), title=title, order=order)
        if kind[0] != 'document':
            if kind[-1] in LEVELS:
                at = LEVELS.index(kind[-1])
                cur[kind[-1]] = rec
                for lower in LEVELS[at + 1:]:
                    cur[lower] = None
            rec['nums'] = [cur[l]['order'][-1] if cur[l] else '' for l in LEVELS]
            rec['titles'] = [cur[l]['title'] if cur[l] else '' for l in LEVELS]
            rec['tree'] = '.'.join(str(n) for n in rec['nums'] if n)
        out.append(rec)
    return [dict(r) for r in out]


def actual(lm):
    out = []
    for l in lm.get_labels_by_kind():
        rec = dict(doc=l.doc_id, id=l.id, kind=list(l.kind), title=l.title, order=list(l.order))
        if l.kind[0] != 'document':
            rec['nums'] = [getattr(l, k + '_number') for k in LEVELS]
            rec['titles'] = [getattr(l, k + '_title') for k in LEVELS]
            rec['tree'] = l.tree_number
        out.append(rec)
    return out


def same(oc, where, got, want, what):
    if [(r['doc'], r['id']) for r in got] != [(r['doc'], r['id']) for r in want]:
        oc.fail('labels:' + where, '%s: labels %r, expected %r' % (what, [(r['doc'], r['id']) for r in got],
                                                                   [(r['doc'], r['id']) for r in want]))
        return
    for g, w in zip(got, want):
        for k in w:
            if g.get(k) != w[k]:
                oc.fail('%s:%s' % (k, where), '%s: label %s::%s has %s %r, expected %r' %
                        (what, w['doc'], w['id'], k, g.get(k), w[k]))
                return


# ------------------------------------------------------------- (a) sequences

def splits(n, docs=3):
    """Positions at which a sequence of n labels is cut over the documents."""
    return itertools.combinations_with_replacement(range(n + 1), docs - 1)


_proj = {}


def live():
    if not _proj:
        d = mc.newdir('c8')
        src = os.path.join(d, 'src')
        for n, inc in (('a', 'bc'), ('b', ''), ('c', '')):
            proj.write(os.path.join(src, n + '.dm'), '---\ntargets: none\n' + (
                'include:\n' + ''.join('  %s.dm\n' % x for x in inc) if inc else '') + '---\nText\n')
        _proj['env'] = proj.environment(os.path.join(src, 'a.dm'), d)
        _proj['root'] = _proj['env'].root_document
    return _proj['root']


def run_seq(oc, case):
    root = live()
    docs = root.documents_list(recursive=True)
    lm = root.label_manager
    ids = [d.doc_id for d in docs]
    n = case['n']
    for rest in itertools.product(range(len(KINDS)), repeat=n - len(case['prefix'])):
        kinds = case['prefix'] + list(rest)
        for cut in splits(n) if case['split'] else [(0, n), (n, n)]:
            lm.reset()
            bounds = [0] + list(cut) + [n]
            per = [list(range(bounds[i], bounds[i + 1])) for i in range(3)]
            # the labels are added in the reverse order of the documents: registering has to put them in order
            for d in (2, 0, 1):
                for i in per[d]:
                    lm.add_content_label(id='l%d' % (i % 2 + 2 * d), kind=KINDS[kinds[i]], title='T%d' % i,
                                         context=docs[d].context) if i - per[d][0] < 2 else \
                        lm.add_content_label(id='l%d' % (10 + i), kind=KINDS[kinds[i]], title='T%d' % i,
                                             context=docs[d].context)
            seq = []
            for d in range(3):
                for i in per[d]:
                    lid = 'l%d' % (i % 2 + 2 * d) if i - per[d][0] < 2 else 'l%d' % (10 + i)
                    seq.append((ids[d], lid, KINDS[kinds[i]], 'T%d' % i))
            same(oc, 'sequence', actual(lm), reference(seq), 'kinds %r cut %r' % ([KINDS[k][1] for k in kinds], cut))
            oc.transitions += n
            oc.traces += 1
            oc.nontrivial += len(set(kinds)) > 1
        oc.state(['s', kinds])


# ------------------------------------------------------------- (b) histories

#: body variants: lists of (kind, id or None, title)
BODIES = [
    [],
    [('chapter', 'x', 'Cx'), ('section', 'y', 'Sy')],
    [('section', 'y', 'Sy2'), ('figure', 'f', 'Ff')],
    [('part', 'p', 'Pp'), ('subsection', 'x', 'SSx')],
    [('figure', 'f', 'F2'), ('chapter', 'x', 'Cx2'), ('figure', 'g', 'Gg'), ('table', 't', 'Tt')],
    [('title', 'x', 'Tx'), ('subsubsection', 'z', 'Z'), ('nolabel', None, 'NL'), ('section', 'w', 'W')],
]
HEADERS = ['', 'doc_id: custom%s\n', 'short: short%s\n']
INCLUDES = ['bc', 'cb', 'b', 'c', '']
RESET_HEADER = 'label_resets:\n  section: figure\n'


def markup(item):
    kind, lid, title = item
    if kind == 'nolabel':
        return '@section[nolabel]{%s}' % title
    if kind in HEAD:
        return '@%s[id=%s]{%s}' % (kind, lid, title)
    return '@%s[id=%s]{@caption{%s}}' % (kind, lid, title)


def text(name, body, hdr, inc=None, reset=False):
    return '---\ntargets: none\n' + (HEADERS[hdr] % name if hdr else '') + (RESET_HEADER if reset else '') + (
        'include:\n' + ''.join('  %s.dm\n' % x for x in inc) if inc else '') + '---\n' + \
        '\n\n'.join(markup(i) for i in BODIES[body]) + '\nend\n'


class World(object):
    """The project: a body and header per document, the include order and the reset rules of the root."""

    def __init__(self, bodies, hdrs=(0, 0, 0), inc=0, reset=False):
        self.bodies, self.hdrs, self.inc, self.reset = list(bodies), list(hdrs), inc, reset

    def key(self):
        return [self.bodies, self.hdrs, self.inc, self.reset]

    def write(self, src, names):
        for n in names:
            i = 'abc'.index(n)
            proj.write(os.path.join(src, n + '.dm'),
                       text(n, self.bodies[i], self.hdrs[i], INCLUDES[self.inc] if n == 'a' else None,
                            self.reset if n == 'a' else False))

    def apply(self, op):
        """Apply an operation; returns the documents to write."""
        if op[0] == 'body':
            self.bodies['abc'.index(op[1])] = op[2]
            return op[1]
        if op[0] == 'hdr':
            self.hdrs['abc'.index(op[1])] = op[2]
            return op[1]
        if op[0] == 'inc':
            self.inc = op[1]
        if op[0] == 'reset':
            self.reset = not self.reset
        return 'a'

    def expected(self):
        seq = []
        for n in ['a'] + list(INCLUDES[self.inc]):
            i = 'abc'.index(n)
            doc_id = 'custom' + n if self.hdrs[i] == 1 else n + '.dm'
            title = 'short' + n if self.hdrs[i] == 2 else n
            seq.append((doc_id, 'doc:%s-dm' % n, ('document', 'document-level-%d' % (1 if n == 'a' else 2)), title))
            for kind, lid, t in BODIES[self.bodies[i]]:
                if kind != 'nolabel':
                    seq.append((doc_id, lid, ('heading' if kind in HEAD else 'caption', kind), t))
        resets = dict(RESETS)
        if self.reset:
            resets['section'] = resets['section'] | {'figure'}
        return reference(seq, resets)


OPS = ([('body', n, b) for n in 'abc' for b in range(len(BODIES))] +
       [('hdr', n, h) for n in 'bc' for h in range(len(HEADERS))] +
       [('inc', i) for i in range(len(INCLUDES))] + [('reset',)])


def lookups(oc, lm, want, what):
    from disseminate.label_manager.exceptions import LabelNotFound
    ids = ['x', 'y', 'f', 'nope', 'doc:b-dm', 'b.dm::x', 'customb::x', 'a.dm::y', 'c.dm::nope', '']
    for q in ids:
        doc, _, lid = q.rpartition('::')
        hits = [r for r in want if r['id'] == lid and (not doc or r['doc'] == doc)]
        try:
            l = lm.get_label(q)
            got = (l.doc_id, l.id)
        except LabelNotFound:
            got = None
        exp = (hits[0]['doc'], hits[0]['id']) if hits else None
        oc.expect(got == exp, 'lookup', '%s: looking up %r gives %r, expected %r' % (what, q, got, exp))


def run_hist(oc, case):
    d0 = case['depth'] - len(case['first'])
    for rest in itertools.product(OPS, repeat=d0):
        ops = [tuple(o) for o in case['first']] + list(rest)
        w = World(case['bodies'])
        d = mc.newdir('c8')
        src = os.path.join(d, 'src')
        try:
            w.write(src, 'abc')
            env = proj.environment(os.path.join(src, 'a.dm'), d)
            root = env.root_document
            for op in ops:
                for_write = w.apply(op)
                w.write(src, for_write)
                root.load()
                oc.transitions += 1
                want = w.expected()
                same(oc, 'history', actual(root.label_manager), want, 'start %r after %r' % (case['bodies'], ops))
                oc.state(w.key())
            lookups(oc, root.label_manager, want, 'start %r after %r' % (case['bodies'], ops))
            oc.traces += 1
            oc.nontrivial += 1
        finally:
            mc.rmdir(d)


# ------------------------------------------------------------ (c) duplicates

def run_dup(oc, case):
    """Two labels with one identifier in one document are refused; fixed, the project loads again."""
    from disseminate.label_manager.exceptions import DuplicateLabel
    k1, k2, where = case['k1'], case['k2'], case['where']
    d = mc.newdir('c8')
    src = os.path.join(d, 'src')
    try:
        def put(n, items):
            proj.write(os.path.join(src, n + '.dm'), '---\ntargets: none\n' + (
                'include:\n  b.dm\n' if n == 'a' else '') + '---\n' + '\n\n'.join(markup(i) for i in items) + '\n')
        bad = [(k1, 'x', 'One'), (k2, 'x', 'Two')]
        good = [(k1, 'x', 'One'), (k2, 'xx', 'Two')]
        put('a', good)
        put('b', good)
        env = proj.environment(os.path.join(src, 'a.dm'), d)
        root = env.root_document
        for rep in range(2):
            put(where, bad)
            oc.transitions += 1
            try:
                root.load()
                oc.fail('duplicate:accepted', 'two labels with id x (%s, %s) in %s.dm were accepted' % (k1, k2, where))
            except DuplicateLabel:
                pass
            put(where, good)
            root.load()
            seq = []
            for n in 'ab':
                seq.append((n + '.dm', 'doc:%s-dm' % n, ('document', 'document-level-%d' % (1 + (n == 'b'))), n))
                seq += [(n + '.dm', lid, ('heading' if k in HEAD else 'caption', k), t) for k, lid, t in good]
            same(oc, 'duplicate-repaired', actual(root.label_manager), reference(seq), repr(case))
        oc.traces += 1
        oc.state(case)
    finally:
        mc.rmdir(d)


def cases(tier):
    for k1, k2 in itertools.product(('chapter', 'section', 'figure', 'table', 'title'), repeat=2):
        for where in 'ab':
            yield dict(kind='dup', k1=k1, k2=k2, where=where)
    for n in (1, 2, 3):
        for p in range(len(KINDS)):
            yield dict(kind='seq', n=n, prefix=[p], split=True)
    for p in itertools.product(range(len(KINDS)), repeat=2):
        yield dict(kind='seq', n=4, prefix=list(p), split=True)
    inits = [[1, 2, 3], [4, 4, 4]] if tier == 'quick' else [[1, 2, 3], [4, 4, 4], [5, 1, 2], [0, 3, 1], [2, 5, 4]]
    for b in inits:
        for o in OPS:
            yield dict(kind='hist', bodies=b, first=[list(o)], depth=2)
    for p in itertools.product(range(len(KINDS)), repeat=3):
        yield dict(kind='seq', n=5, prefix=list(p), split=tier == 'thorough')
    if tier == 'thorough':
        for o in itertools.product(OPS, repeat=2):
            yield dict(kind='hist', bodies=[1, 2, 3], first=[list(x) for x in o], depth=3)
        for p in itertools.product(range(len(KINDS)), repeat=4):
            yield dict(kind='seq', n=6, prefix=list(p), split=False)


def run(case):
    oc = Outcome()
    {'seq': run_seq, 'hist': run_hist, 'dup': run_dup}[case['kind']](oc, case)
    return oc
