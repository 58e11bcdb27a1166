"""C24: tables render every cell of their data in every target.

All small data sources (row lengths, headers, blank lines, quoted and formatted cells, repeated names; inline and files) are
rendered by the real tags in every target format; the rendered tables are parsed back and compared with the data."""
import itertools
import os
import re
import mc
from mc import Outcome

PID = 'C24'
LEVEL = 'model_checking'
RULE = ('all vectors of up to 3 (quick) or 4 (thorough) row lengths from 0 to 3, crossed with header/noheader, 5 kinds of sources (inline on one line or as a block, file with '
        'unix or dos line ends, inline tab separated), different or repeated names; and all placements of 1 (quick) or 2 '
        '(thorough) of 12 special cells in tables of up to 3 by 2 cells; all placements of rows of empty cells in tables of up to 3 by 3; each rendered in html, xhtml, tex and txt, '
        'in 3 kinds of tables with and without a caption')
ASSUMPTIONS = ['blank lines hold no row', 'rows with missing cells end with empty cells',
               'straight and curly quotes are the same']

SPECIAL = ['', 'x y', 'p & q', '"q, r"', '"s ""t"" u"', '@b{z} w', 'a < b', '"two\nlines"', '  lead', '"@i{i, j}"', '1.5', 'R0C0']
KINDS = ['inline', 'block', 'unix', 'dos', 'tab']
TABLES = ['table', 'margintable', 'fulltable', 'tbl']


def cases(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        for lens in itertools.product(range(4), repeat=n):
            yield dict(kind='shape', lens=list(lens))
    for r, c in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
        for k in range(1, 2 if tier == 'quick' else 3):
            for pos in itertools.combinations(range(r * c), k):
                yield dict(kind='cell', rows=r, cols=c, pos=list(pos))
    for r, c in ((1, 2), (2, 2), (3, 2), (3, 3)):
        for k in range(1, r + 1):
            for pos in itertools.combinations(range(r), k):
                yield dict(kind='empty', rows=r, cols=c, pos=list(pos))
    for t, c in itertools.product(TABLES, range(3)):
        yield dict(kind='table', table=t, caption=c)


def parse_cell(s):
    """The text of a cell of a csv line"""
    s = s.lstrip()
    if s.startswith('"'):
        s = s[1:-1].replace('""', '"')
    return plain(re.sub(r'@[bi]\{(.*?)\}', r'\1', s))


def plain(s):
    return re.sub(r'[ \n]+', ' ', s.replace('\u201c', '"').replace('\u201d', '"').replace('\u2019', "'")).strip()


def source(rows, kind):
    sep = '\t' if kind == 'tab' else ', ' if kind == 'block' else ','
    lines = [sep.join(r) for r in rows]
    if kind == 'block':
        return '\n    ' + '\n    '.join(lines) + '\n  '
    return '\n'.join(lines) + ('\n' if kind != 'inline' else '')


def html_table(text, method):
    import lxml.html
    text = ''.join(text)
    import lxml.etree
    if method == 'xhtml':
        root = lxml.etree.fromstring('<x>' + text.replace('&nbsp;', ' ') + '</x>')
    else:
        root = lxml.html.fromstring('<div>' + text + '</div>')
    tables = root.findall('.//table')
    if len(tables) != 1:
        return '%d tables' % len(tables)
    res = []
    for part, cell in (('thead', 'th'), ('tbody', 'td')):
        rows = []
        for p in tables[0].findall(part):
            for tr in p.findall('tr'):
                if any(c.tag != cell for c in tr):
                    return 'other elements in %s' % part
                rows.append([plain(''.join(c.itertext())) for c in tr])
        res.append(rows)
    return res


def tex_table(text):
    m = re.findall(r'\\begin\{tabular\}\{(l*)\}\n(.*?)\\end\{tabular\}', text, re.S)
    if len(m) != 1:
        return '%d tabulars' % len(m), ''
    cols, body = m[0]
    m = re.match(r'\\toprule\n(?:(.*?)\\midrule\n)?(.*?)\\bottomrule\n?$', body, re.S)
    if not m:
        return 'not a table', cols

    def rows(s):
        res = []
        for line in (s or '').split(' \\\\\n')[:-1]:
            res.append([plain(re.sub(r'\\text(?:bf|it)\{(.*?)\}', r'\1', c).replace('\\&', '&')) for c in line.split(' & ')])
        return res
    return [rows(m.group(1)), rows(m.group(2))], cols


def check(oc, rows, noheader, kind, table='table', caption=0, tmp=None):
    import c17
    from disseminate.tags.tag import Tag
    src = source(rows, kind)
    name = 'tsv' if kind == 'tab' else 'csv'
    content = src
    if kind in ('unix', 'dos'):
        content = os.path.join(tmp, 'data.csv')
        with open(content, 'wb') as f:
            f.write((src if kind == 'unix' else src.replace('\n', '\r\n')).encode())
    data = '@%s%s{%s}' % (name, '[noheader]' if noheader else '', content)
    cap = '@caption{Some Legend}'
    inner = {0: data, 1: cap + data, 2: data + '\n ' + cap}[caption]
    if kind == 'block':
        inner = '\n  ' + inner + '\n'
    text = '@%s{%s}' % (table, inner)
    grid = [[parse_cell(c) for c in r] for r in rows if r]
    ncols = max([len(r) for r in grid] or [0])
    grid = [r + [''] * (ncols - len(r)) for r in grid]
    head, body = ([], grid) if noheader else (grid[:1], grid[1:])
    tag = Tag(name='root', content=text, attributes='', context=c17.ctx())
    tag2 = 'noheader' if noheader else 'header'
    oc.transitions += 4
    oc.state((text, src))
    for m in ('html', 'xhtml'):
        got = html_table(str.__str__(getattr(tag, m)), m)
        if not grid and isinstance(got, list):
            got = [[r for r in x if r] for x in got]
        oc.expect(got == [head, body], '%s:%s:%s' % (m, kind, tag2), '%r gives %s, not %s' % ((text, src), got, [head, body]))
    tex = tag.tex
    if grid:
        got, cols = tex_table(tex)
        oc.expect(got == [head, body], 'tex:%s:%s' % (kind, tag2), '%r gives %s, not %s' % ((text, src), got, [head, body]))
        oc.expect(len(cols) == ncols, 'tex:columns', '%r gives %d columns, not %d' % (text, len(cols), ncols))
    txt = plain(tag.txt)
    at = 0
    for r in grid:
        for c in r:
            k = txt.find(c, at)
            if k < 0:
                oc.fail('txt:%s:%s' % (kind, tag2), '%r gives the txt %r, where %r is missing' % ((text, src), txt, c))
                return
            at = k + len(c)
    oc.expect('data.csv' not in txt, 'txt:file', '%r gives the txt %r' % (text, txt))
    if caption:
        oc.expect('Some Legend' in tex and 'Some Legend' in txt and 'Some Legend' in tag.html, 'caption', '%r: no caption' % text)
    oc.traces += 1


def run(case):
    oc = Outcome()
    tmp = mc.newdir('tab')
    for noheader, kind in itertools.product((False, True), KINDS):
        if case['kind'] == 'shape':
            for same in (False, True):
                rows = [['N' if same and i == 0 else 'R%dC%d' % (i, j) for j in range(n)] for i, n in enumerate(case['lens'])]
                check(oc, rows, noheader, kind, tmp=tmp)
        elif case['kind'] == 'cell':
            for sp in itertools.product(SPECIAL, repeat=len(case['pos'])):
                cells = ['R%dC%d' % (k // case['cols'], k % case['cols']) for k in range(case['rows'] * case['cols'])]
                for p, s in zip(case['pos'], sp):
                    cells[p] = s
                rows = [cells[i:i + case['cols']] for i in range(0, len(cells), case['cols'])]
                if case['cols'] == 1 and any(not r[0].strip() for r in rows):
                    continue        # a blank line
                check(oc, rows, noheader, kind, tmp=tmp)
        elif case['kind'] == 'empty':       # rows of empty cells only are still rows
            rows = [['' if i in case['pos'] else 'R%dC%d' % (i, j) for j in range(case['cols'])] for i in range(case['rows'])]
            check(oc, rows, noheader, kind, tmp=tmp)
        else:
            rows = [['H1', 'H2'], ['a', 'b'], ['c', 'd']]
            check(oc, rows, noheader, kind, case['table'], case['caption'], tmp=tmp)
    mc.rmdir(tmp)
    return oc
