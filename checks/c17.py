"""C17: paragraph processing keeps content and never nests paragraphs.

Every sequence of text pieces and tags up to a length is processed as a body, as a feature box, and as text for which
paragraphs are not processed; the tree and the roles equal those of a reference, processing again changes nothing, and
the rendered html has no block element inside a paragraph and no paragraph in a paragraph."""
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C17'
LEVEL = 'model_checking'
CASE_TIMEOUT = 200
RULE = ('all sequences of up to 4 pieces (5 thorough) over 17 pieces (words, spaces, line breaks, blank lines with and '
        'without spaces, inline tags, tags with blank lines inside, headings, lists, boxes, paragraphs, code, figures) in '
        'a body, a feature box in a body and a tag without paragraphs; a state is the resulting tree; the oracle is a '
        'reference splitter')
ASSUMPTIONS = ['a body that consists of a single tag and nothing else is left as it is',
               'white space at the ends of a paragraph next to a break is not content']

PIECES = ['x', ' ', '\n', '\n\n', ' \n \n\n ', 'y\n\nz', '@b{q}', '@b{r\n\ns}', '@section[nolabel]{h}', '@list{\n- i\n}',
          '@featurebox{f\n\ng}', '@p{w}', '@code[python]{c=1}', '@fig{k}', '@sup{2}', '@verb{v}',
          '@featurebox{@b{t}}']
BLOCK = {'section', 'list', 'featurebox', 'p', 'fig', 'verb'}
HTMLBLOCK = {'p', 'div', 'ul', 'ol', 'li', 'figure', 'h1', 'h2', 'h3', 'h4', 'h5', 'table', 'blockquote', 'pre', 'dl'}


def cases(tier):
    n = 5 if tier == 'thorough' else 4
    yield ['body', [], 1]
    for p in itertools.product(range(len(PIECES)), repeat=2):
        for k in range(0, n - 1):
            yield ['seq', list(p), k]


def ctx():
    import c15
    doc = c15.live()
    doc.label_manager.reset()
    return doc.context


def name(item):
    return None if isinstance(item, str) else item.name


def items(x):
    return x if isinstance(x, list) else [x]


def shape(x):
    """Tree of a processed content: strings and [name, role, content]."""
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [shape(i) for i in x]
    return (x.name, x.paragraph_role, shape(x.content))


def pieces_of(s):
    """A text as runs: ('text', t) and 'break' (a run of white space with two or more newlines)."""
    out, buf, i = [], '', 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].isspace():
            j += 1
        if j > i:
            if s[i:j].count('\n') > 1:
                if buf:
                    out.append(buf)
                out.append(None)
                buf = ''
            else:
                buf += s[i:j]
            i = j
        else:
            buf += s[i]
            i += 1
    if buf:
        out.append(buf)
    return out


def expected(content):
    """Reference: list of ('para', [items]) and block tags, for the parsed content of a processed tag."""
    out, cur = [], []

    def close():
        if any(not isinstance(i, str) or i.strip() for i in cur):
            out.append(('para', list(cur)))
        del cur[:]
    for it in content:
        if isinstance(it, str):
            for p in pieces_of(it):
                if p is None:
                    close()
                else:
                    cur.append(p)
        elif it[0] in BLOCK:
            close()
            out.append(it)
        else:
            cur.append(it)
    close()
    return out


def refshape(content, processed):
    """The processed shape of a raw parsed content (list of strings and [name, attributes, content])."""
    if not processed:
        r = [tagshape(i, None) for i in content]
        return unwrap(r)
    if len(content) == 1 and not isinstance(content[0], str):
        return tagshape(content[0], None)
    exp = expected(content)
    out = []
    for e in exp:
        if isinstance(e, tuple):
            its = e[1]
            tags = [i for i in its if not isinstance(i, str)]
            words = [i for i in its if isinstance(i, str) and i.strip()]
            role = 'block' if len(tags) == 1 and not words else 'inline' if len(its) > 1 else None
            sh = [tagshape(i, role) for i in its]
            out.append(('p', None, unwrap(sh)))
        else:
            out.append(tagshape(e, None))
    return unwrap(out, empty=[])


def unwrap(lst, empty=''):
    return lst[0] if len(lst) == 1 else lst if lst else empty


SPECIAL = {'list', 'fig', 'code', 'verb'}     # tags with contents of their own


def tagshape(it, role):
    if isinstance(it, str):
        return it
    n = it[0]
    if n in SPECIAL:
        return (n, role, '*')
    return (n, role, refshape(it[2], n == 'featurebox'))


def clean(sh):
    if isinstance(sh, tuple):
        return (sh[0], sh[1], '*') if sh[0] in SPECIAL else (sh[0], sh[1], clean(sh[2]))
    if isinstance(sh, list):
        return [clean(i) for i in sh]
    return sh


def check_html(oc, s, tag):
    from lxml import etree
    for fmt in ('html', 'xhtml'):
        try:
            text = str(getattr(tag, fmt))
            root = etree.fromstring('<r>' + text.replace('<br>', '<br/>').replace('<hr>', '<hr/>') + '</r>')
        except etree.XMLSyntaxError as e:
            oc.fail('html-syntax', '%r: %s' % (s, e))
            return
        for p in root.iter('p'):
            bad = [d.tag for d in p.iter() if d is not p and d.tag in HTMLBLOCK]
            oc.expect(not bad, 'nested-block:%s' % '+'.join(sorted(set(bad))), '%r: a paragraph holds %r\n%s' %
                      (s, bad, text))
            oc.expect(''.join(p.itertext()).strip() or len(p), 'empty-paragraph', '%r: %s' % (s, text))


def check(oc, idx):
    from disseminate.tags import Tag
    import c12
    s = ''.join(PIECES[i] for i in idx)
    raw = c12.parse(s)
    for mode in ('body', 'other'):
        tag = Tag(name=mode, content=s, attributes='', context=ctx())
        got = clean(shape(tag.content))
        want = clean(refshape(c12.merge(raw), mode == 'body'))
        oc.transitions += 1
        if not oc.expect(got == want, 'tree:%s' % mode, '%r\n expected %r\n got      %r' % (s, want, got)):
            return
    tag = Tag(name='body', content=s, attributes='', context=ctx())
    if len(idx) <= 3:
        check_html(oc, s, tag)
        oc.transitions += 2
        # processing the result again changes nothing
        from disseminate.tags.receivers.paragraphs import process_paragraph_tags
        from disseminate.tags.text import P
        before = clean(shape(tag.content))
        process_paragraph_tags(tag, context=tag.context, tag_base_cls=Tag, p_cls=P)
        oc.expect(clean(shape(tag.content)) == before, 'not-idempotent', '%r' % s)
        if len(idx) <= 2:
            box = Tag(name='body', content='t\n\n@featurebox{' + s + '}', attributes='', context=ctx())
            check_html(oc, 'box ' + s, box)
    oc.traces += 1
    oc.nontrivial += isinstance(got, list)
    oc.state(got)


def run(case):
    oc = Outcome()
    if case[0] == 'body':
        check(oc, [])
        for i in range(len(PIECES)):
            check(oc, [i])
        return oc
    for rest in itertools.product(range(len(PIECES)), repeat=case[2]):
        check(oc, case[1] + list(rest))
        if len(oc.violations) > 10:
            break
    return oc
