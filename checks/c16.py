"""C16: macros expand fully, only where defined, and always terminate.

(a) every set of three macro definitions over a small universe (texts, tags, nested, self- and mutually referring ones)
and every text of a token alphabet, expanded by the real replace_macros and by a reference scanner;
(b) the same definitions processed by the real tags (content with wrapping tags): terminates, and the flattened text is
the expansion;
(c) every placement of a macro's definition in a four-document tree and every single edit of a header: each document
shows the definition of its nearest defining document."""
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C16'
LEVEL = 'model_checking'
CASE_TIMEOUT = 120
RULE = ('macros @a, @ab, @c, each undefined or with one of 11 definitions (plain, empty, braces, tags, references to the '
        'others and itself); texts: all token sequences of length 1..3 (4 thorough) over 11 tokens; documents: all '
        'placements of 3 definition states in a 4-document tree and all single edits; a state is the (definitions, '
        'expansion); the oracle is a reference scanner')
ASSUMPTIONS = ['macros whose definitions refer to themselves have no single expansion: required are termination (with a '
               'text or a TagError), unchanged texts without macros, and agreement for texts of acyclic macros']

NAMES = ['@a', '@ab', '@c']
DEFS = [None, '', 'x', 'x.y', 'x @a', '@a', '@ab', '@c{}y', '@i{@c}', '@i{@a}', '@abc @zz', '@ab.z']
TOKENS = ['@a', '@ab', '@c', '@', 'b', ' ', '.', '{}', '{ }', 'x', '[', '@i{@c}', 'é']
MORE = ['@a.title', '@a{x}', '@abc']


def word(ch):
    return ch == '.' or ch == '_' or ch.isalnum()


def expand(s, defs, active=()):
    """Reference: text of @ followed by word characters and dots is a macro if the part up to the first dot is defined."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] != '@':
            out.append(s[i])
            i += 1
            continue
        j = i + 1
        while j < n and word(s[j]):
            j += 1
        full = s[i:j]
        name, dot, rest = full.partition('.')
        if j == i + 1 or name not in defs:
            out.append(full)
            i = j
            continue
        # an empty pair of braces directly behind belongs to the macro
        k = j
        if k < n and s[k] == '{':
            k += 1
            while k < n and s[k].isspace():
                k += 1
            if k < n and s[k] == '}':
                j = k + 1
        if name in active:
            raise RecursionError(name)
        out.append(expand(defs[name], defs, active + (name,)) + dot + rest)
        i = j
    return ''.join(out)


def cyclic(defs):
    for n in defs:
        try:
            expand(n, defs)
        except RecursionError:
            return True
    return False


def sets():
    for ds in itertools.product(DEFS, repeat=3):
        yield {n: d for n, d in zip(NAMES, ds) if d is not None}


def cases(tier):
    for trip in itertools.product((None, 'M1', 'M2'), repeat=4):
        yield ['docs', list(trip)]
    for i, d in enumerate(sets()):
        yield ['text', d, 3 if tier == 'thorough' else 2]
    for a in DEFS:
        yield ['long', {'@a': a or '', '@c': '@a.@ab'}, 4 if tier == 'thorough' else 3]
    for d in WRAP:
        for t in ('@a', '@c', 'x @a y @c', '@i{@a}@ab', '@a{} {@c}'):
            yield ['tags', d, t]


_w = [None, 'x', '@i{@a}', '@i{@c} @c', '@c', '@i{@i{@ab}}', '@a @a', '@i{@a}@i{@c}', '@p{@a}',
      '@symbol{@c}']
WRAP = [{n: d for n, d in zip(NAMES, ds) if d is not None} for ds in itertools.product(_w, repeat=3)]


def run(case):
    return dict(text=run_text, long=run_text, tags=run_tags, docs=run_docs)[case[0]](case)


def texts(k):
    for n in range(1, k + 1):
        for t in itertools.product(TOKENS, repeat=n):
            yield ''.join(t)
    for m in MORE:
        for t in TOKENS:
            yield m + t
            yield t + m


def run_text(case):
    from disseminate.utils.string import replace_macros
    _, defs, k = case
    oc = Outcome()
    cyc = cyclic(defs)
    seen = set()
    for s in texts(k):
        if s in seen:
            continue
        seen.add(s)
        try:
            want = expand(s, defs)
        except RecursionError:
            want = None
        ctx = dict(defs, title='t', a='no', b='no')
        got = replace_macros(s, ctx)
        oc.transitions += 1
        if want is None:
            oc.merge_info(cyclic_texts=1)
            oc.expect(isinstance(got, str) and len(got) < 100000, 'cyclic', repr((defs, s, got[:300])))
        else:
            if not oc.expect(got == want, 'expansion', 'definitions=%r text=%r\n expected %r\n got      %r' %
                             (defs, s, want, got)):
                return oc
        if got != s:
            oc.nontrivial += 1
        # definitions split over two dicts: the first dict wins
        if len(s) < 6 and want is not None:
            other = {n: 'other' for n in NAMES}
            got2 = replace_macros(s, defs, other)
            want2 = expand2(s, defs)
            if want2 is not None:
                oc.expect(got2 == want2, 'two-dicts', repr((defs, s, want2, got2)))
        oc.expect(ctx == dict(defs, title='t', a='no', b='no'), 'context-changed', repr(ctx))
    oc.traces += len(seen)
    oc.state([sorted(defs.items()), cyc])
    return oc


def expand2(s, defs):
    d = {n: 'other' for n in NAMES}
    d.update(defs)
    try:
        return expand(s, d)
    except RecursionError:
        return None


class Ctx(dict):
    """A context of a single text (weakly referable like a document's context)."""
    parent = None
    initial_values = {}
    document = None


def flat(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return ''.join(flat(i) for i in x)
    return flat(x.content)


def run_tags(case):
    """Tags that wrap macros: terminates with a text or a TagError."""
    from disseminate.tags import Tag
    from disseminate.tags.exceptions import TagError
    _, defs, s = case
    oc = Outcome()
    d = newctx()
    for k, v in defs.items():
        d[k] = v
    try:
        want = expand(s, defs)
    except RecursionError:
        want = None
    try:
        t = Tag(name='root', content=s, attributes='', context=d)
        got = flat(t)
        oc.expect(len(got) < 10 ** 7, 'cyclic-tags-size', len(got))
    except TagError:
        got = None
        oc.expect(want is None, 'tagerror-acyclic', repr(case))
    oc.transitions += 1
    oc.traces += 1
    if want is not None and got is not None and '@ref' not in want and '@symbol' not in want:
        ref = Tag(name='root', content=want, attributes='', context=newctx())
        oc.expect(flat(ref) == got, 'tags-expansion', repr((case, flat(ref), got)))
        oc.nontrivial += 1
    # a later text isn't affected by an earlier failure (nesting is counted per text)
    deep = '@i{' * 8 + 'x' + '}' * 8
    t = Tag(name='root', content=deep, attributes='', context=newctx())
    oc.expect(flat(t) == 'x', 'later-text', flat(t))
    oc.state([sorted(defs.items()), s, got is None])
    return oc


_ctx = []


def newctx():
    """A document context with no macros of its own."""
    from disseminate.context import BaseContext
    c = BaseContext()
    _ctx.append(c)
    del _ctx[:-4]
    return c


SHAPE = {0: None, 1: 0, 2: 0, 3: 1}
FILES = {0: 'r.dm', 1: 'a.dm', 2: 'b.dm', 3: 'c.dm'}


def run_docs(case):
    oc = Outcome()
    base = case[1]
    edits = [None] + [(i, v) for i in range(4) for v in (None, 'M1', '@n{} N', 'M3 @n') if v != base[i]]
    for edit in edits:
        d = mc.newdir()
        src = os.path.join(d, 'src')

        def put(i, macro):
            header = {'targets': 'none'}
            if macro is not None:
                header['@mac'] = macro
            if i == 1:
                header['@n'] = 'inner'
            kids = [FILES[k] for k, p in SHAPE.items() if p == i]
            # (documents list their includes last)
            proj.write(os.path.join(src, FILES[i]), proj.dm(header, 'start @mac{} @macx {@mac} end%d' % i, kids))
        state = list(base)
        for i in range(4):
            put(i, state[i])
        env = proj.environment(os.path.join(src, 'r.dm'), d)
        compare(oc, env, state, 'load')
        if edit is not None:
            i, v = edit
            state[i] = v
            put(i, v)
            oc.transitions += 1
            env.root_document.load()
            for doc in env.root_document.documents_list(only_subdocuments=True, recursive=True):
                doc.load()
            compare(oc, env, state, 'edit')
        oc.traces += 1
        oc.state([state])
        env = None
        mc.rmdir(d)
    return oc


def compare(oc, env, state, when):
    root = env.root_document
    docs = [root] + root.documents_list(only_subdocuments=True, recursive=True)
    byname = {str(x.src_filepath.subpath): x for x in docs}
    for i in range(4):
        chain, j = [], i
        while j is not None:
            chain.append(j)
            j = SHAPE[j]
        defs = {}
        for j in reversed(chain):
            if state[j] is not None:
                defs['@mac'] = state[j]
            if j == 1:
                defs['@n'] = 'inner'
        x = byname[FILES[i]]
        got = flat(x.context['body']).strip()
        want = expand('start @mac{} @macx {@mac} end%d' % i, defs)
        from disseminate.tags import Tag
        ref = Tag(name='root', content=want, attributes='', context=newctx())
        ref = flat(ref).strip()
        oc.expect(got == ref, 'document-macros:%s' % when,
                  'macros of the chain %r; document %s shows %r, expected %r' % (defs, FILES[i], got, ref))
        oc.nontrivial += bool(defs)
