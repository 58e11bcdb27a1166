"""C23: lists keep every item at its level.

Every sequence of items over indentations, bullets, separators and contents up to a length is read by the real list tags
and by a reference line scanner; the rendered html, xhtml and tex hold the same items, in order, nested alike."""
import itertools
import re
import mc
from mc import Outcome

PID = 'C23'
LEVEL = 'model_checking'
CASE_TIMEOUT = 200
RULE = ('all level sequences of up to 5 items (6 thorough) over 5 indentations with plain contents, all sequences of up to '
        '2 items over 6 indentations, 13 contents, 4 separators and 3 leads, for ul and ol; a state is the item tree; the '
        'oracle is a reference line scanner and the order of the levels')
ASSUMPTIONS = ['an item starts at a line whose first character is - or *, outside the braces of a tag',
               'two spaces make a level, an odd space counts as a level']

INDENTS = (0, 1, 2, 3, 4, 6)
# source, text without white space, names of tags, simple (no nested list)
CONTENTS = [
    ('a', 'a', [], True), ('two words', 'twowords', [], True), ('x\n  cont', 'xcont', [], True),
    ('x\ncont', 'xcont', [], True), ('@b{q} t', 'qt', ['b'], True), ('see @b{q\n  - r} t', 'seeq-rt', ['b'], True),
    ('@i{k}\n\n  more', 'kmore', ['i'], True), ('', '', [], True), ('p - q * r', 'p-q*r', [], True),
    ('@i{@b{m}\n* n}', 'm*n', ['i', 'b'], True), ('u @list{\n - m\n  - n\n} v', 'umnv', ['list'], False),
    ('@b{z}@i{y}', 'zy', ['b', 'i'], True), ('é {set} w', 'é{set}w', [], True),
]
SEPS = ('\n', '\n\n', '\n  \n', '\n    \n\n')
LEADS = ('', '\n', '\n   \n')


def cases(tier):
    n = 6 if tier == 'thorough' else 5
    for k in range(1, 3):
        yield ['levels', [], k]
    for p in itertools.product(range(5), repeat=2):
        for k in range(1, n - 1):
            yield ['levels', list(p), k]
    for i in range(len(INDENTS)):
        for c in range(len(CONTENTS)):
            yield ['contents', i, c]
            if tier == 'thorough':
                yield ['contents3', i, c]


def reference(levels):
    lo = min(levels) if levels else 0
    return [-(-(l - lo) // 2) for l in levels]


def nows(s):
    return ''.join(s.split())


def flat(x):
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return ''.join(flat(i) for i in x)
    return flat(x.content)


def tagnames(x):
    if isinstance(x, str):
        return []
    if isinstance(x, list):
        return [n for i in x for n in tagnames(i)]
    return [x.name] + (tagnames(x.content) if x.name != 'list' else [])


def consistent(levels, depths):
    """Items with nothing shallower between them compare like their levels."""
    for i in range(len(levels)):
        low = None
        for j in range(i + 1, len(levels)):
            if low is None or low >= min(levels[i], levels[j]):
                a = (levels[i] > levels[j]) - (levels[i] < levels[j])
                b = (depths[i] > depths[j]) - (depths[i] < depths[j])
                if a != b:
                    return False
            low = levels[j] if low is None else min(low, levels[j])
    return True


def own(e):
    """The text of an element without the lists in it."""
    return (e.text or '') + ''.join(('' if c.tag in ('ul', 'ol') else own(c)) + (c.tail or '') for c in e)


def check(oc, kind, src, items):
    """items: list of (indent, content index)"""
    import c17
    from disseminate.tags import Tag
    import lxml.html
    from lxml import etree
    name = {'ul': 'list', 'ol': 'orderedlist'}[kind]
    oc.transitions += 1
    oc.traces += 1
    root = Tag(name='root', content='@%s{%s}' % (name, src), attributes='', context=c17.ctx())
    tag = root.content
    levels = reference([i for i, c in items])
    want = [(l, CONTENTS[c][1], CONTENTS[c][2]) for l, (i, c) in zip(levels, items)]
    got = [(t.attributes['level'], nows(flat(t.content)), tagnames(t.content)) for t in tag.content]
    oc.state(want)
    if not oc.expect(got == want, 'items', '%r\n items    %r\n expected %r' % (src, got, want)):
        return
    if not items or not all(CONTENTS[c][3] for i, c in items):
        return
    for fmt in ('html', 'xhtml'):
        text = str(getattr(tag, fmt))
        doc = (lxml.html.fragment_fromstring(text, create_parent='div') if fmt == 'html' else
               etree.fromstring('<r>' + text + '</r>'))
        lis = list(doc.iter('li'))
        texts = [nows(own(li)) for li in lis]
        depths = [sum(1 for a in li.iterancestors() if a.tag == kind) for li in lis]
        oc.expect(texts == [w[1] for w in want], 'html-items', '%r in %s\n items    %r\n expected %r\n%s' %
                  (src, fmt, texts, [w[1] for w in want], text))
        oc.expect(len(depths) != len(levels) or consistent(levels, depths), 'html-levels',
                  '%r in %s: levels %r are nested at %r\n%s' % (src, fmt, levels, depths, text))
        oc.expect(not [a for a in doc.iter() if a.tag in ('ul', 'ol') and a.tag != kind], 'html-kind', text)
        oc.transitions += 1
    tex = tag.tex
    body = tex[tex.index(']') + 1:tex.rindex('\\end{easylist}')]
    parts = re.findall(r'(§+) ([^§]*)', body)
    oc.expect([len(a) - 1 for a, b in parts] == levels, 'tex-levels', '%r: %r' % (src, tex))
    tt = [nows(re.sub(r'\\text(bf|it)\{([^{}]*)\}', r'\2', re.sub(r'\\text(bf|it)\{([^{}]*)\}', r'\2', b)))
          for a, b in parts]
    oc.expect(tt == [w[1] for w in want], 'tex-items', '%r\n items    %r\n expected %r' % (src, tt, want))
    oc.expect(('itemize' if kind == 'ul' else 'enumerate') in tex, 'tex-kind', tex)
    txt = nows(tag.txt)
    oc.expect(txt == ''.join(w[1] for w in want), 'txt-items', '%r: %r' % (src, txt))
    if len(set(levels)) > 1:
        oc.nontrivial += 1


def run(case):
    oc = Outcome()
    if case[0] == 'levels':
        for rest in itertools.product(range(5), repeat=case[2]):
            idx = case[1] + list(rest)
            inds = [(0, 2, 4, 6, 3)[i] for i in idx]
            src = '\n' + ''.join(' ' * ind + '-*'[k % 2] + ' a\n' for k, ind in enumerate(inds))
            check(oc, 'ul' if len(idx) % 2 else 'ol', src, [(i, 0) for i in inds])
            if len(oc.violations) > 10:
                break
        return oc
    _, i, c = case
    n = 2 if case[0] == 'contents3' else 1
    for lead in LEADS:
        src = lead + ' ' * INDENTS[i] + '- ' + CONTENTS[c][0]
        check(oc, 'ul', src, [(INDENTS[i], c)])
        rng = list(itertools.product(INDENTS if n == 1 else INDENTS[::2], range(len(CONTENTS)), SEPS if n == 1 else SEPS[1:3]))
        for rest in itertools.product(rng, repeat=n):
            if lead and n > 1:
                break
            s, its = src, [(INDENTS[i], c)]
            for ind, c2, sep in rest:
                s += sep + ' ' * ind + '* ' + CONTENTS[c2][0]
                its.append((ind, c2))
            check(oc, 'ol' if lead else 'ul', s + ('\n' if lead else ''), its)
            if len(oc.violations) > 10:
                return oc
    return oc
