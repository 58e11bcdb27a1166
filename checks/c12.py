"""C12: parsing tags keeps all text, nesting and attributes.

Every token sequence up to a length is parsed by the real tags and by a reference recursive scanner; the trees (names,
attributes, contents) must be equal, and the errors must occur for the same texts."""
import itertools
import mc
from mc import Outcome

PID = 'C12'
LEVEL = 'model_checking'
CASE_TIMEOUT = 120
RULE = ('all texts of up to 5 tokens (6 thorough) over 13 tokens (tag starts, tag prefix, attributes, brackets, braces, '
        'text, space, newline, non-ASCII); nesting depths 1..12 in 6 forms; contents given as lists of strings and tags; '
        'a state is the parsed tree; the oracle is a reference scanner')
ASSUMPTIONS = ['texts without macros, typographic replacements and block-level tags (these have checks of their own)',
               'a tag may hold up to nine levels of braces']

TOKENS = ['@b', '@zz9', '@', '[a=1]', '[', ']', '{', '}', 'x', ' ', '\n', 'é', '[k=v p]']
MAXBRACES = 10


class Bad(Exception):
    pass


def isname(ch, first):
    if first:
        return ch.isascii() and ch.isalnum()
    return ch == '_' or ch.isalnum()


def parse(s):
    """Reference: a list of strings and [name, attributes text, content]."""
    out, buf, i, n = [], [], 0, len(s)
    while i < n:
        if not (s[i] == '@' and i + 1 < n and isname(s[i + 1], True)):
            buf.append(s[i])
            i += 1
            continue
        if buf:
            out.append(''.join(buf))
            buf = []
        j = i + 1
        while j < n and isname(s[j], False):
            j += 1
        name, attrs, content = s[i + 1:j], '', []
        if j < n and s[j] == '[':
            k = s.find(']', j)
            if k > j + 1:
                attrs = s[j + 1:k]
                j = k + 1
        if j < n and s[j] == '{':
            depth, k = 1, j + 1
            while k < n and depth:
                depth += {'{': 1, '}': -1}.get(s[k], 0)
                if depth >= MAXBRACES:
                    raise Bad('depth')
                k += 1
            if depth:
                raise Bad('open')
            content = parse(s[j + 1:k - 1])
            j = k
        out.append([name, attrs, content])
        i = j
    if buf:
        out.append(''.join(buf))
    return out


def refattrs(text):
    """The attributes of the alphabet, as written."""
    return {'': [], 'a=1': [['a', '1']], 'k=v p': [['k', 'v'], ['p', None]]}.get(text)


def merge(lst):
    out = []
    for x in lst:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def ref(lst):
    return merge([x if isinstance(x, str) else [x[0], refattrs(x[1]), ref(x[2])] for x in lst])


def attrs_of(tag):
    from disseminate.utils.types import PositionalValue
    out = []
    for k, v in tag.attributes.items():
        out.append([str(k), None if v is PositionalValue or (isinstance(v, type) and issubclass(v, PositionalValue)) else str(v)])
    return out


def real(x):
    if isinstance(x, str):
        return [x]
    if isinstance(x, (list, tuple)):
        return merge([i for y in x for i in real(y)])
    return [[x.name, attrs_of(x), merge(real(x.content))]]


def blank(tree, other):
    """Attributes the reference doesn't spell out are compared by C15."""
    if isinstance(tree, list) and isinstance(other, list) and len(tree) == len(other):
        if len(tree) == 3 and isinstance(tree[0], str) and (tree[1] is None) and isinstance(other[1], list):
            tree[1] = other[1]
        for a, b in zip(tree, other):
            blank(a, b)


def flat(lst):
    return ''.join(x if isinstance(x, str) else flat(x[2]) for x in lst)


def cases(tier):
    for form in range(6):
        for depth in range(1, 13):
            yield ['depth', form, depth]
    for a in TOKENS:
        yield ['lists', a]
    n = 6 if tier == 'thorough' else 5
    yield ['tokens', '', 2]
    for p in itertools.product(TOKENS, repeat=n - 3):
        yield ['tokens', list(p), 3]


def newctx():
    import c16
    return c16.newctx()


def build(s):
    from disseminate.tags import Tag
    return Tag(name='root', content=s, attributes='', context=newctx())


def check(oc, s):
    from disseminate.tags.exceptions import TagError
    try:
        want = ref(parse(s))
    except Bad as e:
        want = str(e)
    try:
        t = build(s)
        got = merge(real(t.content))
    except TagError:
        got = 'error'
    oc.transitions += 1
    oc.traces += 1
    if isinstance(want, str):
        oc.expect(got == 'error', 'no-error:%s' % want, '%r: an error was expected, got %r' % (s, got))
        return
    if got == 'error':
        oc.fail('error', '%r: unexpected error; expected %r' % (s, want))
        return
    blank(want, got)
    if want != got:
        key = 'text' if flat(want) != flat(got) else 'tree'
        oc.fail(key, '%r\n expected %r\n got      %r' % (s, want, got))
    if any(not isinstance(x, str) for x in got):
        oc.nontrivial += 1
    oc.state(got)


def run(case):
    oc = Outcome()
    if case[0] == 'tokens':
        pre, k = ''.join(case[1]), case[2]
        sizes = [k] if case[1] else range(0, k + 1)
        for n in sizes:
            for t in itertools.product(TOKENS, repeat=n):
                check(oc, pre + ''.join(t))
                if len(oc.violations) > 20:
                    return oc
    elif case[0] == 'depth':
        _, form, d = case
        o, c = ['@b{', '@zz9[a=1]{x', '{', '@b{x}{', '@b{y@i{', '@b{{'][form], ['}', 'y}', '}', 'x}', '}}', '}}'][form]
        for lead, trail in (('', ''), ('t ', ' u'), ('@b{', '}'), ('{', '}')):
            check(oc, lead + o * d + 'z' + c * d + trail)
            check(oc, lead + o * d + 'z' + c * (d - 1) + trail)
            check(oc, lead + '@b{' + o * d + 'z' + c * d + '}' + trail)
    else:
        # contents that are lists of texts and tags
        for t in itertools.product(TOKENS, repeat=2):
            s = case[1] + t[0] + t[1]
            try:
                want = ref(parse(s))
            except Bad:
                continue
            sub = build('x @i{y}').content
            inner = build(s)
            got = merge(real(build([s, inner, ['p ', s], 'q']).content))
            exp = merge(want + [['root', [], want]] + ['p '] + want + ['q'])
            blank(exp, got)
            oc.expect(exp == got, 'list-content', '%r\n expected %r\n got      %r' % (s, exp, got))
            # parsing again changes nothing
            from disseminate.tags.receivers.content import parse_tags
            from disseminate.tags.tag import TagFactory
            again = parse_tags(inner.content, inner.context, TagFactory)
            oc.expect(merge(real(again)) == merge(real(build(s).content)), 'not-idempotent', repr(s))
            oc.transitions += 2
            oc.traces += 1
            oc.state(got)
    return oc
