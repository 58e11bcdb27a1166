"""C07: the document tree is the include graph, each document once.

Every include graph over a few documents (ordered include lists, self-includes, cycles, repeats, shared includes,
nested directories, spelling variants of paths) is loaded by the real code, and every bounded history of edits to
include lists is replayed on one live project; after each step the tree is compared with the reference placement."""
import itertools
import os
import pathlib
import mc
import proj
from mc import Outcome

PID = 'C07'
LEVEL = 'model_checking'
RULE = ('all include graphs: 3 documents with ordered include lists (any order, self-includes) and lists with repeats, '
        '4 documents with lists of up to 2; all edit histories (set the include list of a document, delete or restore '
        'a file) of depth 2 from every 3-document graph; a state is the include graph, the oracle is the depth-first '
        'placement of every reachable document at its first occurrence')
ASSUMPTIONS = ['modification times strictly increase with edits', 'documents are small text files']

PATHS = ['index.dm', 'b.dm', 'sub/c.dm', 'sub/deep/d.dm']
VARIANTS = 3


def lists(n, maxlen, me=None):
    """All ordered lists without repeats of up to maxlen documents (me excluded if given)."""
    pool = [i for i in range(n) if i != me]
    out = []
    for k in range(min(maxlen, len(pool)) + 1):
        out += [list(p) for p in itertools.permutations(pool, k)]
    return out


def cases(tier):
    # 1. All graphs over three documents, self-includes and cycles included
    l3 = lists(3, 3)
    for a in l3:
        for b in l3:
            yield dict(kind='graphs', n=3, fixed=[a, b], last=l3)
    # 2. Repeated entries and spelling variants of the same path
    reps = [[1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 2, 2], [0, 1, 0, 2]]
    for r in reps:
        for b in ([], [2], [2, 2], [0], [1], [0, 2]):
            yield dict(kind='graphs', n=3, fixed=[r, b], last=[[], [1], [0], [1, 1], [2]])
    for v in itertools.product(range(VARIANTS), repeat=3):
        yield dict(kind='variants', v=list(v))
    # 3. Edit histories on a live project
    small = [lists(3, 2, me=i) for i in range(3)]
    for g in itertools.product(*small):
        for first in range(3):
            yield dict(kind='hist', g=list(g), first=first)
    # 4. Four documents
    m = 2 if tier == 'quick' else 3
    l4 = [lists(4, m, me=i) for i in range(4)]
    for a in l4[0]:
        for b in l4[1]:
            if not a:
                continue
            for c in l4[2]:
                yield dict(kind='graphs', n=4, fixed=[a, b, c], last=l4[3])
    # 5. Four documents, histories from trees (thorough)
    if tier == 'thorough':
        l4 = [lists(4, 2, me=i) for i in range(4)]
        for a in l4[0]:
            for b in l4[1]:
                if a:
                    for c in ([], [3], [1]):
                        yield dict(kind='hist4', g=[a, b, c, []])


def reference(g):
    """The nested placement of each reachable document at its first depth-first occurrence."""
    placed = set()

    def visit(i):
        placed.add(i)
        kids = []
        for j in g[i]:
            if j not in placed:
                kids.append(visit(j))
        return [PATHS[i], kids]
    return visit(0)


def rel(i, j, variant=0):
    p = os.path.relpath(PATHS[j], os.path.dirname(PATHS[i]) or '.')
    if variant == 1:
        return './' + p
    if variant == 2:
        return 'nodir/../' + p if not os.path.dirname(PATHS[i]) else '../' + os.path.basename(
            os.path.dirname(PATHS[i])) + '/' + p
    return p


def write_doc(d, i, g, variant=0):
    proj.write(os.path.join(d, 'src', PATHS[i]),
               proj.dm(dict(title='t%d' % i, targets='none'), '\nText %d @section[id=s%d]{S}\n' % (i, i),
                       [rel(i, j, variant) for j in g[i]]))


class Guard(object):
    """Stops runaway recursion before it takes down the interpreter."""
    count = 0


def setup():
    from disseminate.document.document import Document
    init = Document.__init__

    def guarded(self, *args, **kwargs):
        Guard.count += 1
        if Guard.count > 60:
            raise RuntimeError('more than 60 documents created: loading does not terminate')
        return init(self, *args, **kwargs)
    Document.__init__ = guarded


def observe(doc):
    doc_labels = [l.doc_id for l in doc.label_manager.get_labels_by_kind(kinds='document')]
    secs = [(l.doc_id, l.id) for l in doc.label_manager.get_labels_by_kind(kinds='section')]
    return doc_labels, secs


def compare(oc, where, doc, g):
    ref = reference(g)
    got = proj.tree(doc)
    order = proj.names(ref)
    oc.expect(got == ref, 'tree:%s' % where, 'graph %r: tree %r, expected %r' % (g, got, ref))
    lst = [str(x.src_filepath.subpath) for x in doc.documents_list(recursive=True)]
    oc.expect(lst == order, 'order:%s' % where, 'graph %r: documents %r, expected %r' % (g, lst, order))
    docs, secs = observe(doc)
    oc.expect(docs == order, 'labels:%s' % where, 'graph %r: document labels %r, expected %r' % (g, docs, order))
    want = [(p, 's%d' % PATHS.index(p)) for p in order]
    oc.expect(secs == want, 'labels:%s' % where, 'graph %r: section labels %r, expected %r' % (g, secs, want))

    def parents(x, parent):
        pc = x.context.parent_context
        pd = getattr(pc, 'document', None) if pc is not None else None
        oc.expect(pd is parent, 'parent:%s' % where, 'graph %r: %s is not owned by its includer' % (g, x.doc_id))
        for y in x.subdocuments.values():
            parents(y, x)
    parents(doc, None)


def run(case):
    oc = Outcome()
    if case['kind'] == 'graphs':
        n = case['n']
        k = len(case['fixed'])
        d = mc.newdir('c7')
        try:
            g = [list(x) for x in case['fixed']] + [[] for _ in range(n - k)]
            for i in range(n):
                write_doc(d, i, g)
            for last in case['last']:
                g[n - 1] = last
                # unreachable documents cannot matter: skip equal reachable graphs only when the last is unreachable
                if last and PATHS[n - 1] not in proj.names(reference(g)):
                    continue
                write_doc(d, n - 1, g)
                Guard.count = 0
                env = proj.environment(os.path.join(d, 'src', PATHS[0]), d)
                oc.transitions += 1
                oc.traces += 1
                compare(oc, 'load', env.root_document, g)
                oc.state(g)
                oc.nontrivial += len(proj.names(reference(g))) > 1
        finally:
            mc.rmdir(d)
    elif case['kind'] == 'variants':
        d = mc.newdir('c7')
        try:
            for g in ([[1, 2], [2], [1, 0]], [[2], [0], [1, 2]], [[1, 2], [], [0]]):
                os.makedirs(os.path.join(d, 'src', 'nodir'), exist_ok=True)
                os.makedirs(os.path.join(d, 'src', 'sub'), exist_ok=True)
                for i in range(3):
                    write_doc(d, i, g, case['v'][i])
                Guard.count = 0
                env = proj.environment(os.path.join(d, 'src', PATHS[0]), d)
                oc.transitions += 1
                oc.traces += 1
                compare(oc, 'spelling', env.root_document, g)
                oc.state([g, case['v']])
        finally:
            mc.rmdir(d)
    else:
        n = 3 if case['kind'] == 'hist' else 4
        small = [lists(n, 2, me=i) for i in range(n)]
        ops = [('set', i, l) for i in range(n) for l in small[i]] + [('rm', i, None) for i in range(1, n)]
        firsts = [o for o in ops if o[1] == case['first']] if n == 3 else ops
        seconds = ops if n == 3 else [o for o in ops if o[0] == 'set' and len(o[2]) < 2]
        for o1 in firsts:
            for o2 in seconds:
                if n == 3 and o1[0] == 'set' and case['g'][o1[1]] == o1[2]:
                    continue
                history(oc, case['g'], n, (o1, o2))
    return oc


def history(oc, g0, n, ops):
    g = [list(x) for x in g0]
    d = mc.newdir('c7')
    try:
        for i in range(n):
            write_doc(d, i, g)
        Guard.count = 0
        env = proj.environment(os.path.join(d, 'src', PATHS[0]), d)
        doc = env.root_document
        missing = set()
        for op, i, l in ops:
            if op == 'set':
                g[i] = list(l)
                missing.discard(i)
                write_doc(d, i, g)
            else:
                p = os.path.join(d, 'src', PATHS[i])
                if os.path.exists(p):
                    os.remove(p)
                missing.add(i)
            Guard.count = 0
            oc.transitions += 1
            reach = [PATHS.index(p) for p in proj.names(reference(g))]
            try:
                doc.load()
                failed = None
            except RuntimeError:
                raise
            except Exception as e:
                failed = e
            gone = missing & set(reach)
            if gone:
                if failed is None:
                    oc.fail('missing:silent', '%r after %r: an included document is missing, load succeeded' % (g0, ops))
                # restored: the next load must be complete
                for j in gone:
                    write_doc(d, j, g)
                missing -= gone
                doc.load()
                compare(oc, 'restored', doc, g)
            elif failed is not None:
                raise failed
            else:
                compare(oc, 'reload', doc, g)
            oc.state(g)
        oc.traces += 1
        oc.nontrivial += 1
    finally:
        mc.rmdir(d)
