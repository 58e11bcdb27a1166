"""C11: headers are read exactly as written.

(a) every sequence of lines over an alphabet (hyphen lines, look-alikes, entries, text, blank lines): the block, the body
and whether there is a header at all, against a reference line scanner;
(b) every list of entries (single, quoted, multi-line, nested, with colons) in three indentations and two frames: the
dict read equals the entries written;
(c) the same through real documents: context entries and body, also after the file is edited."""
import itertools
import os
import mc
import proj
from mc import Outcome

PID = 'C11'
LEVEL = 'model_checking'
CASE_TIMEOUT = 200
RULE = ('all texts of up to 5 lines (6 thorough) over 11 line forms, with and without a final newline and with CRLF lines; '
        'all lists of up to 3 of 31 entry forms (in 3 indentations, with and without blank lines); all edits between 9 '
        'document texts; a state is the (header, body) pair; the oracle is a reference line scanner')
ASSUMPTIONS = ['keys occur once per header', 'a nested block is indented deeper than its entry']

LINES = ['---', '-----', '--', '--- x', ' ---', 'a: 1', '  b: 2', 'text', '', '---\t', '@m: x --- y']


def split(text):
    """Reference: (header lines or None, body)."""
    lines = text.split('\n')
    ends = []
    pos = 0
    for l in lines:
        pos += len(l) + 1
        ends.append(pos)

    def bar(l):
        s = l.strip()
        return len(s) >= 3 and not s.strip('-')
    i = 0
    while i < len(lines) and not lines[i].strip():
        i += 1
    # the opening line has to be a complete line
    if i >= len(lines) - 1 or not bar(lines[i]):
        return None, text
    for j in range(i + 1, len(lines)):
        if bar(lines[j]):
            return lines[i + 1:j], text[ends[j]:] if j < len(lines) - 1 else ''
    return None, text


def cases(tier):
    n = 6 if tier == 'thorough' else 5
    for k in range(0, 3):
        for p in itertools.product(range(len(LINES)), repeat=k):
            yield ['lines', list(p), 0]
    for p in itertools.product(range(len(LINES)), repeat=2):
        yield ['lines', list(p), n - 2]
    for i in range(len(FORMS)):
        yield ['entries', i]
    for i in range(len(DOCS)):
        yield ['docs', i]


def check_lines(oc, idx):
    from disseminate.context.utils import load_from_string, find_header_entries
    for end in ('', '\n'):
        for eol in ('\n', '\r\n'):
            text = '\n'.join(LINES[i] for i in idx) + end
            hdr, body = split(text)
            if eol != '\n':
                if len(idx) > 4:
                    continue
                text = text.replace('\n', eol)
                hdr, body = split(text)
            has = 'b' in find_header_entries({'b': text, 'n': 5})
            oc.transitions += 1
            oc.traces += 1
            oc.state([hdr, body])
            if not oc.expect(has == (hdr is not None), 'header-found', '%r: header %s, expected %r' % (text, has, hdr)):
                continue
            if hdr is None:
                continue
            oc.nontrivial += 1
            rest, d = load_from_string(text)
            oc.expect(rest == body, 'body', '%r: body %r, expected %r' % (text, rest, body))
            keys = set()
            for l in hdr:
                k = l.split(':')[0].strip() if ':' in l else None
                if k and not (l.startswith(' ') and keys and not first_indented(hdr)):
                    keys.add(k)
            oc.expect(set(d) == keys, 'keys', '%r: entries %r, expected %r' % (text, d, keys))
            for k, v in (('a', '1'), ('@m', 'x --- y')):
                if k in keys and sum(1 for l in hdr if l.startswith(k + ':')) == 1:
                    oc.expect(d[k].strip().split('\n')[0] == v, 'value', '%r: %s is %r' % (text, k, d[k]))


def first_indented(hdr):
    """True if the second key line is a sibling (the first entry is indented as well)."""
    first = next(l for l in hdr if ':' in l)
    return first.startswith(' ')


# ------------------------------------------------------------- entries

# lines of the value as written (the first behind the colon) -> the value
FORMS = [
    (['v'], 'v'), (['two words'], 'two words'), (['a: b'], 'a: b'), ([''], ''), (['"q v"'], 'q v'), (["'q'"], 'q'),
    (['" pad "'], ' pad '), (['"One" and "Two"'], '"One" and "Two"'), (["it's"], "it's"), (['say "x" now'], 'say "x" now'),
    (['http://x.y/z?a=b'], 'http://x.y/z?a=b'), (['x\\:y'], 'x:y'), (['@toc{all headings}'], '@toc{all headings}'),
    (['trail '], 'trail '), (['""'], ''), (['é, ü'], 'é, ü'), (["'\"nested\"'"], '"nested"'), (['-- x ---y'], '-- x ---y'),
    (['@toc{all', '  headings}'], '@toc{all\n  headings}'),
    (['first', 'same level'], 'first\nsame level'),
    (['', '  one.dm', '  "two three.dm"', "  'four'.dm"], "  one.dm\n  two three.dm\n  'four'.dm"),
    (['', '  k: v', '  l: w'], '  k: v\n  l: w'),
    (['', '  k:', '    m: n', '    o: p'], '  k:\n    m: n\n    o: p'),
    (['', '', '  late'], '  late'),
    (['x', '', '  gap'], 'x\n\n  gap'),
    (['x', '  y\\:z'], 'x\n  y:z'),
    (['', '  "q": "r"'], '  "q": "r"'),
    (['', ' k: v', '   l: w'], ' k: v\n   l: w'), (['""t""'], '"t"'), (['', '   deep: 1', ' less: 2'], '   deep: 1\n less: 2'),
    (['x', '<text', '<  more'], 'x\ntext\nmore'),
]
KEYNAMES = ['title', '@mac', 'my key']
FRAMES = [('---\n', '---\n'), ('-----\n', '---\n'), ('\n\n---\n', '------')]


def check_entries(oc, forms, indent, blank, frame):
    from disseminate.context.utils import load_from_string
    from disseminate.context import BaseContext
    pad = ' ' * indent
    out = []
    want = {}
    for k, f in zip(KEYNAMES, forms):
        lines, value = FORMS[f]
        out.append(pad + k + ':' + (' ' + lines[0] if lines[0] else ''))
        # lines that are marked with '<' are indented less than the entry
        out += [(l[1:] if len(l[1:]) - len(l[1:].lstrip()) <= indent else l[1:].lstrip())
                if l.startswith('<') else pad + l if l else '' for l in lines[1:]]
        out += [''] * blank
        want[k] = value
    o, c = FRAMES[frame]
    text = o + '\n'.join(out) + '\n' + pad + c + 'Body\n---\nx: y\n' if c.endswith('\n') else \
        o + '\n'.join(out) + '\n' + pad + c
    body = 'Body\n---\nx: y\n' if c.endswith('\n') else ''
    rest, d = load_from_string(text)
    oc.transitions += 1
    oc.traces += 1
    oc.state([forms, indent, blank])
    oc.expect(rest == body, 'entries-body', '%r: body %r' % (text, rest))
    oc.expect(d == want, 'entries', '%r:\n read     %r\n expected %r' % (text, d, want))
    ctx = BaseContext()
    r2 = ctx.load(text)
    oc.expect(dict(ctx) == want and r2 == body, 'context-load', '%r: %r' % (text, dict(ctx)))
    if len(forms) > 1:
        oc.nontrivial += 1


# ------------------------------------------------------------- documents

HD = 'targets: none\n'
DOCS = [
    ('---\n' + HD + 'title: One\n---\nBody one\n', {'title': 'One'}, 'Body one\n'),
    ('---\n' + HD + 'author: X\n  Y\n---\nBody --- two\n---\nz: 1\n---\n', {'author': 'X\n  Y'}, 'Body --- two\n---\nz: 1\n---\n'),
    ('---\n' + HD + '---\n', {}, ''),
    ('---\n' + HD + 'title: "Q: r"\nmyopt:\n  a: b\n---\n\n  indented\n', {'title': 'Q: r', 'myopt': '  a: b'}, '\n  indented\n'),
    ('\n\n----\n' + HD + 'title: T\n-----\nx', {'title': 'T'}, 'x'),
    ('---\n' + HD + 'x: 1\n--- y\nz: 2\n---\nend', {'x': '1\n--- y', 'z': '2'}, 'end'),
    ('no header\n---\ntitle: N\n---\n', {}, None),
    ('', {}, ''),
    ('---\n---\nonly body\n---\n', {}, None),
]


def flat(x):
    import c16
    return c16.flat(x)


def run_docs(oc, i):
    from disseminate.context.context import BaseContext
    for j in range(len(DOCS)):
        d = mc.newdir()
        src = os.path.join(d, 'src')
        path = os.path.join(src, 'a.dm')
        proj.write(path, DOCS[i][0])
        # documents without a header of their own have the default targets: nothing is built here
        env = proj.environment(path, d)
        doc = env.root_document
        compare(oc, doc, DOCS[i], 'load %d' % i)
        if j != i:
            proj.write(path, DOCS[j][0])
            doc.load()
            oc.transitions += 1
            compare(oc, doc, DOCS[j], 'edit %d to %d' % (i, j))
        oc.traces += 1
        doc = env = None
        mc.rmdir(d)


def compare(oc, doc, spec, when):
    text, want, body = spec
    if body is None:
        body = split(text)[1]
    for k in ('title', 'author', 'x', 'z', 'myopt'):
        got = doc.context.get(k)
        w = want.get(k)
        if w is None:
            w = {'title': None}.get(k)
        oc.expect((got or None) == (w or None), 'document-entry', '%s: %s is %r, expected %r' % (when, k, got, w))
    got = flat(doc.context['body'])
    # paragraphs and typography don't change the characters other than dashes and blank lines
    norm = lambda s: ''.join(s.replace('—', '---').replace('–', '--').replace('“', '"').replace('”', '"').split()).replace('-', '')
    oc.expect(norm(got) == norm(body), 'document-body', '%s: body %r, expected %r' % (when, got, body))
    oc.state([want, body])


def run(case):
    oc = Outcome()
    if case[0] == 'lines':
        for rest in itertools.product(range(len(LINES)), repeat=case[2]):
            check_lines(oc, case[1] + list(rest))
            if len(oc.violations) > 10:
                break
    elif case[0] == 'entries':
        i = case[1]
        for n in (0, 1, 2):
            for rest in itertools.product(range(len(FORMS)), repeat=n):
                for indent in (0, 4) if n == 2 else (0, 2, 4):
                    for blank in (0, 1):
                        for frame in range(len(FRAMES)) if n < 2 else (0,):
                            check_entries(oc, [i] + list(rest), indent, blank, frame)
                if len(oc.violations) > 10:
                    return oc
    else:
        run_docs(oc, case[1])
    return oc
