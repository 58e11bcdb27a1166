"""C10: documents inherit context values without sharing or leaking them.

(a) every (parent value, child change, grandchild change) over a universe of nested values on real contexts;
(b) every assignment of header options to a four-document project, and every bounded history of header edits and
moves of a document between parents, compared with a reference merge of the headers."""
import copy
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C10'
LEVEL = 'model_checking'
RULE = ('contexts: all (parent value, child change, grandchild change) triples over 14 nested values and 9 changes, with '
        'every in-place mutation of the descendants; documents: all assignments of 8 header options to a 4-document '
        'tree (root, two children, a grandchild) in 3 tree shapes, and all edit histories of depth 2 (header edits, '
        'moves between parents); a state is the header assignment and the shape; the oracle merges headers by type')
ASSUMPTIONS = ['values tracked: strings, numbers, booleans, lists, sets, dicts and dicts of sets from headers',
               'modification times strictly increase with edits']

# ---------------------------------------------------------------- contexts

VALUES = [
    's', '5', 5, 1.5, True, False, ['a'], ['a', ['b']], {'p': 'q'}, {'p': ['a']}, {'p': {'q': 'r'}},
    {'p': {'q': ['a', 'b']}}, [{'p': 'q'}], {'p': {'q': {'r': ['a']}}},
]
SETS = [{'a'}, {'p': {'a', 'b'}}, {'p': {'q': {'a'}}}]
CHANGES = [None, 'z', '7', 'false', 'p: n', ['y'], {'p': 'n'}, {'p': {'q': 'n'}}, {'o': ['n']}]


def encode(v):
    if isinstance(v, set):
        return {'__set__': sorted(v)}
    if isinstance(v, dict):
        return {k: encode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [encode(x) for x in v]
    return v


def decode(v):
    if isinstance(v, dict):
        if '__set__' in v:
            return set(v['__set__'])
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def to_list(v):
    """A header string as a list: semicolons, lines or commas."""
    if not isinstance(v, str):
        return list(v)
    for sep in (';', '\n', ','):
        parts = [p.strip() for p in v.split(sep)]
        if sep == '\n':
            parts = [p for p in parts if p]
        if len(parts) > 1:
            return parts
    return [v]


def to_dict(v):
    if not isinstance(v, str):
        return v
    out, cur, lvl = {}, None, None
    for line in v.split('\n'):
        if ':' in line and (lvl is None or len(line) - len(line.lstrip()) <= lvl):
            lvl = len(line) - len(line.lstrip())
            k, x = line.split(':', 1)
            cur = k.strip()
            out.setdefault(cur, []).append(x.strip())
        elif cur is not None:
            out[cur].append(line[lvl or 0:])
    return {k: '\n'.join(x).strip('\n') for k, x in out.items()}


def merge(orig, change):
    """The documented merge of a change into a value of a type (deep copies)."""
    change = copy.deepcopy(change)
    if isinstance(orig, list):
        return to_list(change) + copy.deepcopy(orig)
    if isinstance(orig, set):
        return set(to_list(change)) | orig
    if isinstance(orig, dict):
        out = copy.deepcopy(orig)
        for k, v in to_dict(change).items():
            out[k] = merge(out[k], v) if k in out else v
        return out
    if isinstance(orig, bool):
        if isinstance(change, str) and change.strip().lower() in ('true', 'false'):
            return change.strip().lower() == 'true'
        return orig
    if isinstance(orig, (int, float)):
        try:
            return type(orig)(change)
        except ValueError:
            return orig
    return change if type(change) == type(orig) else orig


def compatible(v, c):
    """Changes that make sense for the type: what headers (strings) or nested headers can hold."""
    if c is None or isinstance(c, str):
        if isinstance(c, str) and isinstance(v, dict) and ':' not in c:
            return False
        if isinstance(c, str) and isinstance(v, dict):
            return nested_ok(v, to_dict(c))
        return True
    if isinstance(v, (list, set)):
        return isinstance(c, list)
    if isinstance(v, dict):
        return isinstance(c, dict) and nested_ok(v, c)
    return False


def nested_ok(v, c):
    for k, x in c.items():
        if k in v and not compatible(v[k], x):
            return False
    return True


def paths(v, pre=()):
    yield pre
    if isinstance(v, dict):
        for k in v:
            for p in paths(v[k], pre + (k,)):
                yield p
    elif isinstance(v, list):
        for i, x in enumerate(v):
            for p in paths(x, pre + (i,)):
                yield p


def poke(v, path):
    """Mutate, in place, the container at a path."""
    for k in path:
        v = v[k]
    if isinstance(v, dict):
        v['POKE'] = 1
    elif isinstance(v, list):
        v.append('POKE')
    elif isinstance(v, set):
        v.add('POKE')
    else:
        return False
    return True


def run_values(oc, value):
    from disseminate.context import BaseContext
    value = decode(value)
    for c1, c2 in itertools.product(CHANGES, repeat=2):
        if not compatible(value, c1):
            continue
        e1 = merge(value, c1) if c1 is not None else copy.deepcopy(value)
        if not compatible(e1, c2):
            continue
        e2 = merge(e1, c2) if c2 is not None else copy.deepcopy(e1)
        parent = BaseContext(k=copy.deepcopy(value), other='o')
        sibling = BaseContext(parent_context=parent)
        child = BaseContext(parent_context=parent)
        if c1 is not None:
            child.match_update({'k': copy.deepcopy(c1)})
        grand = BaseContext(parent_context=child)
        if c2 is not None:
            grand.match_update({'k': copy.deepcopy(c2)})
        oc.transitions += 4
        oc.traces += 1
        oc.nontrivial += c1 is not None or c2 is not None
        oc.state(['v', encode(value), encode(e1), encode(e2)])
        what = 'value %r, changes %r then %r' % (value, c1, c2)
        oc.expect(parent['k'] == value, 'leak:parent', '%s: parent became %r' % (what, parent['k']))
        oc.expect(sibling['k'] == value, 'leak:sibling', '%s: sibling became %r' % (what, sibling['k']))
        oc.expect(child['k'] == e1, 'merge:child', '%s: child %r, expected %r' % (what, child['k'], e1))
        oc.expect(grand['k'] == e2, 'merge:grandchild', '%s: %r, expected %r' % (what, grand['k'], e2))
        # every in-place mutation of a descendant stays there
        for p in paths(e2):
            if poke(grand['k'], p):
                oc.expect(child['k'] == e1 and parent['k'] == value and sibling['k'] == value, 'leak:poke',
                          '%s: changing %r in the grandchild changed child %r parent %r' %
                          (what, p, child['k'], parent['k']))
        for p in paths(e1):
            if poke(child['k'], p):
                oc.expect(parent['k'] == value and sibling['k'] == value, 'leak:poke',
                          '%s: changing %r in the child changed parent %r' % (what, p, parent['k']))
        # reset restores what a new context gets
        child.reset()
        oc.expect(child['k'] == value and 'POKE' not in repr(child['k']), 'reset:child',
                  '%s: after reset %r' % (what, child['k']))
        grand.reset()
        oc.expect(grand['k'] == value, 'reset:grandchild', '%s: after reset %r' % (what, grand['k']))
        # initial values survive changes
        init = BaseContext(k=copy.deepcopy(value))
        for p in paths(value):
            poke(init['k'], p)
        init.reset()
        oc.expect(init['k'] == value, 'reset:initial', 'value %r: after changes and reset %r' % (value, init['k']))


# --------------------------------------------------------------- documents

NAMES = 'abcd'
OPTIONS = 8
TRACKED = ('foo', '@mac', 'label_resets', 'label_fmts', 'process_paragraphs', 'relative_links', 'epub', 'short',
           'base_url', 'title', 'label_sep')
NOT_INHERITED = ('short',)


def header(doc, opt):
    """Header lines and the values they spell."""
    return {
        0: ('', {}),
        1: ('foo: f%s\n@mac: M%s\n' % (doc, doc), {'foo': 'f' + doc, '@mac': 'M' + doc}),
        2: ('label_resets:\n  chapter: eq%s\n  newkind%s: one%s, two\n' % (doc, doc, doc),
            {'label_resets': {'chapter': 'eq' + doc, 'newkind' + doc: 'one%s, two' % doc}}),
        3: ('label_fmts:\n  heading: H%s\n  extra%s: E\n' % (doc, doc),
            {'label_fmts': {'heading': 'H' + doc, 'extra' + doc: 'E'}}),
        4: ('process_paragraphs: cap%s\nrelative_links: false\n' % doc,
            {'process_paragraphs': 'cap' + doc, 'relative_links': 'false'}),
        5: ('epub:\n  k%s: v\nshort: s%s\n' % (doc, doc), {'epub': {'k' + doc: 'v'}, 'short': 's' + doc}),
        6: ('base_url: /u%s/{target}/{subpath}\nrelative_links: true\n' % doc,
            {'base_url': '/u%s/{target}/{subpath}' % doc, 'relative_links': 'true'}),
        7: ('title: "t%s"\nlabel_resets:\n  chapter: zz\nfoo: other\n' % doc,
            {'title': 't' + doc, 'label_resets': {'chapter': 'zz'}, 'foo': 'other'}),
    }[opt]


#: the tree shapes: document -> its includes
SHAPES = [
    {'a': 'bc', 'b': 'd', 'c': '', 'd': ''},
    {'a': 'bc', 'b': '', 'c': 'd', 'd': ''},
    {'a': 'dcb', 'b': '', 'c': '', 'd': ''},
]


def text(doc, opt, shape):
    return '---\ntargets: none\n' + header(doc, opt)[0] + (
        'include:\n' + ''.join('  %s.dm\n' % x for x in SHAPES[shape][doc]) if SHAPES[shape][doc] else '') + \
        '---\nText %s\n' % doc


_base = {}


def base_values():
    """What a document without any header has (the defaults), for the tracked values."""
    if not _base:
        from disseminate import settings
        _base.update({k: copy.deepcopy(settings.default_context[k]) for k in TRACKED if k in settings.default_context})
    return _base


def expected(opts, shape):
    out = {}

    def visit(doc, inherited):
        ctx = {k: copy.deepcopy(v) for k, v in inherited.items() if k not in NOT_INHERITED}
        for k, v in header(doc, opts[doc])[1].items():
            ctx[k] = merge(ctx[k], v) if k in ctx else v
        out[doc] = ctx
        for x in SHAPES[shape][doc]:
            visit(x, ctx)
    visit('a', base_values())
    return out


def compare(oc, where, root, opts, shape, pairs=None):
    want = expected(opts, shape)
    docs = {d.src_filepath.stem: d for d in root.documents_list(recursive=True)}
    if not oc.expect(sorted(docs) == sorted(want), 'docs:' + where, '%r: documents %r' % (opts, sorted(docs))):
        return
    for n, d in docs.items():
        for k in TRACKED:
            got = d.context.get(k, None)
            exp = want[n].get(k, None)
            oc.expect(got == exp, 'value:%s:%s' % (where, k),
                      'headers %r shape %d: %s has %s=%r, expected %r' % (opts, shape, n, k, got, exp))
        oc.expect(d.context['doc_id'] == n + '.dm', 'value:%s:doc_id' % where, '%s: %r' % (n, d.context['doc_id']))
    # no container is shared between two documents
    seen = {}
    for n, d in docs.items():
        for k in TRACKED:
            for c in containers(d.context.get(k, None)):
                if id(c) in seen and seen[id(c)][0] != n:
                    oc.fail('shared:' + where, '%s and %s share a container in %s' % (n, seen[id(c)][0], k))
                seen[id(c)] = (n, c)


def containers(v):
    if isinstance(v, (dict, list, set)):
        yield v
    for x in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else ()):
        for c in containers(x):
            yield c


def run_docs(oc, case):
    d = mc.newdir('c10')
    src = os.path.join(d, 'src')
    try:
        for od in range(OPTIONS):
            opts = dict(zip(NAMES, case['opts'] + [od]))
            for n in NAMES:
                proj.write(os.path.join(src, n + '.dm'), text(n, opts[n], case['shape']))
            env = proj.environment(os.path.join(src, 'a.dm'), d)
            oc.transitions += 1
            oc.traces += 1
            oc.nontrivial += any(opts.values())
            oc.state([opts, case['shape']])
            compare(oc, 'load', env.root_document, opts, case['shape'])
    finally:
        mc.rmdir(d)


def run_hist(oc, case):
    depth = case.get('depth', 2)
    ops = [('opt', n, o) for n in NAMES for o in range(OPTIONS)] + [('shape', s, None) for s in range(len(SHAPES))]
    for rest in itertools.product(ops, repeat=depth - 1):
        opts = dict(zip(NAMES, case['opts']))
        shape = case['shape']
        d = mc.newdir('c10')
        src = os.path.join(d, 'src')
        try:
            for n in NAMES:
                proj.write(os.path.join(src, n + '.dm'), text(n, opts[n], shape))
            env = proj.environment(os.path.join(src, 'a.dm'), d)
            root = env.root_document
            for op in [tuple(case['first'])] + list(rest):
                if op[0] == 'opt':
                    opts[op[1]] = op[2]
                    proj.write(os.path.join(src, op[1] + '.dm'), text(op[1], opts[op[1]], shape))
                else:
                    old, shape = shape, op[1]
                    for n in NAMES:
                        if SHAPES[old][n] != SHAPES[shape][n]:
                            proj.write(os.path.join(src, n + '.dm'), text(n, opts[n], shape))
                root.load()
                oc.transitions += 1
                oc.state([opts, shape])
                compare(oc, 'reload', root, opts, shape)
            oc.traces += 1
            oc.nontrivial += 1
        finally:
            mc.rmdir(d)


def cases(tier):
    for v in VALUES + SETS:
        yield dict(kind='values', value=encode(v))
    for shape in range(len(SHAPES)):
        for o in itertools.product(range(OPTIONS), repeat=3):
            if tier == 'quick' and shape and not all(x in (0, 1, 2, 4) for x in o):
                continue
            yield dict(kind='docs', opts=list(o), shape=shape)
    firsts = [('opt', n, o) for n in NAMES for o in range(OPTIONS)] + [('shape', s, None) for s in range(len(SHAPES))]
    inits = [[0, 0, 0, 0], [1, 2, 3, 4], [2, 2, 7, 2]] if tier == 'quick' else \
        [[0, 0, 0, 0], [1, 2, 3, 4], [2, 2, 7, 2], [7, 7, 7, 7], [5, 6, 4, 1], [4, 0, 0, 3]]
    for o in inits:
        for f in firsts:
            yield dict(kind='hist', opts=o, shape=0, first=list(f), depth=2)
    if tier == 'thorough':
        for f in firsts:
            yield dict(kind='hist', opts=[1, 2, 3, 4], shape=1, first=list(f), depth=3)


def run(case):
    oc = Outcome()
    if case['kind'] == 'values':
        run_values(oc, case['value'])
    elif case['kind'] == 'docs':
        run_docs(oc, case)
    else:
        run_hist(oc, case)
    return oc
