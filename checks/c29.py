"""C29: contents and navigation follow the document order.

Projects are built with the real loader, label manager, tags, templates and builders. Every document holds tables of contents
of all kinds, @prev and @next; the lists found in the html, xhtml and tex files (and in the menu of the template) are parsed
and compared with a reference model: the selected entries, once each, in document order, nested by their levels, with links to
the entries themselves. Edits (headings added, removed and moved, documents reordered) are made in the same process."""
import html.parser
import itertools
import os
import re
import shutil
import urllib.parse
import mc
import proj
import build
import c08
from mc import Outcome

PID = 'C29'
LEVEL = 'model_checking'
CASE_TIMEOUT = 300
RULE = ('all sequences of up to 3 headings (of 4 kinds) in all distributions over three documents (flat and nested), 23 kinds of '
        'contents in every document; all sets of targets of four documents for previous and next; all changes between 8 '
        'states of a project in the same process; a state is the list of entries and links of a project')
ASSUMPTIONS = ['the external commands are stand-ins']

MODES = ['all headings', 'all headings expanded', 'all headings abbreviated', 'all heading', 'headings', 'heading', 'current headings',
         'headings expanded', 'all documents', 'documents', 'document', 'all documents expanded', 'all documents abbreviated',
         'all headings documents', 'all documents headings abbreviated', 'headings documents', 'all headings collapsed',
         'headings collapsed', 'all documents collapsed', 'all figures', 'figures', 'all tables', 'all headings figures tables']
LEVEL_OF = {'title': 0, 'part': 1, 'chapter': 2, 'section': 3, 'subsection': 4, 'subsubsection': 5}
FLAT = [['main.dm', 'a.dm', 'sub/b.dm'], {'0': [1, 2]}]
NESTED = [['main.dm', 'sub/a.dm', 'b.dm'], {'0': [1], '1': [2]}]
FOUR = [['main.dm', 'a.dm', 'sub/b.dm', 'c.dm'], {'0': [1, 3], '1': [2]}]


def cases(tier):
    def splits(seq, n):
        for cut in itertools.combinations_with_replacement(range(len(seq) + 1), n - 1):
            cut = (0,) + cut + (len(seq),)
            yield [list(seq[a:b]) for a, b in zip(cut, cut[1:])]

    kinds = ('part', 'chapter', 'section', 'subsection')
    for length in range(4 if tier == 'quick' else 5):
        for seq in itertools.product(kinds if length < 3 else kinds[1:], repeat=length):
            for n, parts in enumerate(splits(seq, 3)):
                layout = (FLAT, NESTED)[(n + len(seq)) % 2]
                if tier == 'thorough' or length < 3 or n % 6 == sum(map(len, seq)) % 6:
                    yield dict(layout=layout, states=[parts], t=['html, tex'] * 3)
    # all kinds of labels
    for seq in itertools.permutations(['title', 'chapter', 'fig', 'table', 'subsubsection'], 3):
        yield dict(layout=FLAT, states=[[list(seq), ['section', 'fig'], ['chapter', 'table']]], t=['html, xhtml'] * 3)
    # previous and next
    sets = ['html', 'tex', 'html, tex', 'html, pdf', 'tex, pdf']
    for t in itertools.product(sets if tier == 'thorough' else sets[:3], repeat=4):
        yield dict(layout=FOUR, states=[[['chapter'], ['section'], ['chapter', 'section'], ['chapter']]], t=list(t), few=1)
    for t in itertools.product(sets, repeat=3):
        yield dict(layout=NESTED, states=[[['chapter'], ['section'], ['chapter', 'section']]], t=list(t), few=1)
    for has in itertools.product((0, 1), repeat=4):
        yield dict(layout=FOUR, states=[[['chapter'] * h for h in has]], t=['html, tex'] * 4, few=1)
    # edits
    some = [[['chapter'], ['chapter'], ['chapter']], [[], ['chapter'], ['chapter']], [['chapter'], [], ['chapter']],
            [['chapter'], ['chapter'], []], [['chapter', 'section'], ['chapter'], ['section', 'chapter']], [[], [], []],
            [['section'], ['chapter', 'chapter'], ['chapter']]]
    for a, b in itertools.permutations(some, 2):
        for order in ((0, 1) if tier == 'quick' else (0, 1, 2, 3)):
            yield dict(layout=FLAT, states=[a, b], t=['html, tex'] * 3, flip=order, few=1)
    if tier == 'thorough':
        for a, b, c in itertools.permutations(some, 3):
            yield dict(layout=FLAT, states=[a, b, c], t=['html, tex'] * 3, flip=1, few=1)


def setup():
    build.install()


_w = {}


def world():
    if not _w:
        base = mc.newdir('c29')
        _w.update(src=os.path.join(base, 'src'), out=os.path.join(base, 'out'))
        os.makedirs(_w['src'])
        proj.write(os.path.join(_w['src'], 'x.png'), 'image')
    return _w


def kindof(k):
    return ('caption', 'figure') if k == 'fig' else ('caption', 'table') if k == 'table' else ('heading', k)


def order_of(layout, flip):
    """The documents in the order of the project; flip reverses the first list of included documents."""
    names, tree = layout

    def walk(i):
        kids = tree.get(str(i), [])
        res = [i]
        for k in (kids[::-1] if flip and i == 0 else kids):
            res += walk(k)
        return res
    return walk(0)


def depth_of(layout, i):
    for p, kids in layout[1].items():
        if i in kids:
            return 1 + depth_of(layout, int(p))
    return 1


def write(case, bodies, flip, modes):
    w = world()
    names, tree = case['layout']
    out = []
    for i, name in enumerate(names):
        kids = tree.get(str(i), [])
        kids = kids[::-1] if flip and i == 0 else kids
        here = os.path.dirname(name)
        include = [os.path.relpath(names[k], here or '.') for k in kids]
        parts = ['@prev @next']
        for n, mode in enumerate(modes):
            parts.append('M%dM' % n)
            parts.append('@toc{%s}' % mode)
        parts.append('M%dM' % len(modes))
        parts.append('P @prev P N @next N')
        for j, k in enumerate(bodies[i]):
            parts.append('@fig[id=d%di%d]{@img{x.png} @caption{Cap %d %d}}' % (i, j, i, j) if k == 'fig' else
                         '@table[id=d%di%d]{@caption{Cap %d %d}}' % (i, j, i, j) if k == 'table' else
                         '@%s[id=d%di%d]{Head %d %d}' % (k, i, j, i, j))
        text = proj.dm({'title': 'Title %d' % i, 'targets': case['t'][i]}, '\n\n'.join(parts[1:]) + '\n', include=include)
        path = os.path.join(w['src'], name)
        if not os.path.exists(path) or open(path).read() != text:
            proj.write(path, text)
        out.append(os.path.normpath(path))
    return out


def reference(case, bodies, flip):
    names = case['layout'][0]
    seq = []
    for i in order_of(case['layout'], flip):
        label = 'doc:' + re.sub(r'[^a-z0-9]+', '-', names[i].lower()).strip('-')
        seq.append((i, label, ('document', 'document-level-%d' % depth_of(case['layout'], i)), 'Title %d' % i))
        for j, k in enumerate(bodies[i]):
            seq.append((i, 'd%di%d' % (i, j), kindof(k), ('Cap' if kindof(k)[0] == 'caption' else 'Head') + ' %d %d' % (i, j)))
    labels = c08.reference(seq)
    for rec in labels:
        n, k = rec['order'][-1], rec['kind'][-1]
        rec['text'] = {'figure': 'Fig. %d' % n, 'table': 'Table %d' % n, 'part': 'Part %d. %s' % (n, rec['title']),
                       'chapter': 'Chapter %d. %s' % (n, rec['title'])}.get(k, rec['title'])
    return labels


def selected(labels, mode, i):
    """The documented meaning of the contents of a toc tag in document i."""
    words = mode.split()
    kinds = ['document'] if 'collapsed' in words and 'all' in words else \
        [k for k in ('heading', 'document', 'figure', 'table') if k in words or k + 's' in words]
    res = [r for r in labels if set(kinds) & set(r['kind']) and ('all' in words or r['doc'] == i)]
    if 'abbreviated' in words:
        res = [r for n, r in enumerate(res) if r['doc'] == i or n == 0 or res[n - 1]['doc'] != r['doc']]
    return res


def levels(entries):
    res, cur = [], 1
    for r in entries:
        cur = LEVEL_OF[r['kind'][-1]] if r['kind'][-1] in LEVEL_OF else 1 if r['kind'][0] == 'document' else cur
        res.append(cur)
    return res


def parents(lv):
    """The entry that each entry is nested in: the closest one before it with a smaller level."""
    return [max((j for j in range(i) if lv[j] < lv[i] and all(lv[k] > lv[j] for k in range(j + 1, i))), default=None)
            for i in range(len(lv))]


class Lists(html.parser.HTMLParser):
    """The lists of class toc, in order, with the text between them."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.parts, self.ols, self.li, self.link = [''], [], None, None

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if tag == 'ol' and (self.ols or attrs.get('class') == 'toc'):
            if not self.ols:
                self.parts.append([])
            # the entry that the list belongs to is the one before it in the list around it
            self.ols.append([self.ols[-1][1] if self.ols[-1][1] is not None else self.ols[-1][0], None]
                            if self.ols else [None, None])
        elif tag == 'li' and self.ols:
            self.parts[-1].append(dict(owner=self.ols[-1][0], cls=attrs.get('class'), href=None, text='', links=0))
            self.ols[-1][1] = len(self.parts[-1]) - 1
        elif tag == 'a' and self.ols and self.parts[-1]:
            self.parts[-1][-1]['href'] = attrs.get('href')
            self.parts[-1][-1]['links'] += 1
        elif not self.ols:
            self.parts[-1] += self.get_starttag_text()

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag == 'ol':
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if tag == 'ol' and self.ols:
            self.ols.pop()
            if not self.ols:
                self.parts.append('')
        elif not self.ols:
            self.parts[-1] += '</%s>' % tag

    def handle_data(self, data):
        if not self.ols:
            self.parts[-1] += data
        elif self.parts[-1]:
            self.parts[-1][-1]['text'] += data


def flat(s):
    return re.sub(r'\s+', ' ', s).strip()


def run(case):
    oc = Outcome()
    w = world()
    for d in (w['src'], w['out']):
        shutil.rmtree(d, True)
        os.makedirs(d)
    proj.write(os.path.join(w['src'], 'x.png'), 'image')
    modes = MODES if not case.get('few') else MODES[:1] + MODES[8:9]
    env = None
    try:
        for n, bodies in enumerate(case['states']):
            # the order of the documents before and after the edit
            flip = bool(case.get('flip', 0) >> 1) if n == 0 else bool(case.get('flip', 0) & 1)
            placed = write(case, bodies, flip, modes)
            if n == 0:
                env = proj.environment(os.path.join(w['src'], 'main.dm'), w['out'])
                rb = env.create_root_builder()
                status, count = rb.status, 0
                while status in ('ready', 'building') and count < 200:
                    status = rb.build(complete=False)
                    count += 1
            else:
                status = env.root_document.build()
            oc.expect(status == 'done', 'status', '%r: %s' % (case, status))
            by_src = {os.path.normpath(str(d.src_filepath)): d for d in env.root_document.documents_list(recursive=True)}
            look(oc, case, [by_src[p] for p in placed], reference(case, bodies, flip), modes, order_of(case['layout'], flip), n)
    finally:
        if env is not None and env.decider._db is not None:
            env.decider._db.close()
    oc.traces += 1
    return oc


def resolve(out, here, url):
    """(file, fragment) of a link in a file."""
    base, _, frag = urllib.parse.unquote(url).partition('#')
    return os.path.normpath(os.path.join(os.path.dirname(here), base)) if base else here, frag


def look(oc, case, docs, labels, modes, order, step):
    out = world()['out']
    targets = [t.split(', ') for t in case['t']]
    seen = []

    def path(i, t):
        return os.path.relpath(str(docs[i].target_filepath('.' + t)), out)

    def check(what, entries, want, i, t):
        """entries: dicts with owner, level, href and text."""
        got = [flat(e['text']) for e in entries]
        if not oc.expect(got == [r['text'] for r in want], 'entries:' + t, '%s: %r, not %r' % (what, got, [r['text'] for r in want])):
            return
        lv = levels(want)
        seen.append([i, t, got])
        for n, (e, r) in enumerate(zip(entries, want)):
            oc.transitions += 1
            if t == 'tex':
                oc.expect(e['level'] == lv[n], 'level:tex', '%s: %r has %d §, not %d' % (what, r['text'], e['level'], lv[n]))
            else:
                oc.expect(e['cls'] == 'toc-level-%d' % lv[n] and e['links'] <= 1, 'level:' + t, '%s: %r' % (what, e))
                oc.expect(e['owner'] == parents(lv)[n], 'nested:' + t, '%s: %r is below %r, not %r (levels %r)' %
                          (what, r['text'], e['owner'], parents(lv)[n], lv))
            check_link(what, e['href'], r, i, t)
        oc.nontrivial += len(want) > 1

    def check_link(what, href, r, i, t):
        ft = 'pdf' if t == 'tex' else t
        j = r['doc']
        anchor = '' if r['kind'][0] == 'document' else r['id']
        if not href:
            ok = ft not in targets[j] or ft not in targets[i] or (i == j and not anchor)
            oc.expect(ok, 'no-link:' + t, '%s: no link for %r' % (what, r['text']))
            return
        if href.startswith('#'):
            oc.expect(i == j and href == '#' + anchor, 'link:' + t, '%s: %r links to %r' % (what, r['text'], href))
            return
        to = resolve(out, path(i, ft) if ft in targets[i] else path(i, t), href)
        want = (path(j, ft) if ft in targets[j] else None, anchor)
        oc.expect(to == want, 'link:' + t, '%s: %r links to %r, that is %r, not %r' % (what, r['text'], href, to, want))

    def neighbour(i, t, rel):
        """The first heading of the document before or after in the target."""
        # a pdf is made from a tex document
        chain = [k for k in order if t in targets[k] or (t == 'tex' and 'pdf' in targets[k])]
        at = chain.index(i) + rel
        if not 0 <= at < len(chain):
            return None
        return next((r for r in labels if r['doc'] == chain[at] and r['kind'][0] == 'heading'), None)

    for i in range(len(docs)):
        for t in targets[i]:
            if t == 'pdf':
                continue
            what = '%r step %d: %s of %s' % (case, step, t, case['layout'][0][i])
            text = open(os.path.join(out, path(i, t)), encoding='utf-8').read()
            if t == 'tex':
                for n, mode in enumerate(modes):
                    m = re.search(r'M%dM(.*?)M%dM' % (n, n + 1), text, re.S)
                    if not oc.expect(m, 'marker', what):
                        continue
                    m2 = re.search(r'\\begin\{easylist\}\[booktoc\](.*?)\\end\{easylist\}', m.group(1), re.S)
                    if not oc.expect(m2, 'list:tex', '%s: %s: %r' % (what, mode, m.group(1))):
                        continue
                    entries = []
                    for line in m2.group(1).strip().split('\n'):
                        if line.startswith('\\ListProperties') or not line.strip():
                            continue
                        mm = re.fullmatch(r'(§*) (?:\\href\{(.*?)\}\{(.*)\}|(.*))', line)
                        if oc.expect(mm, 'list:tex', '%s: %s: %r' % (what, mode, line)):
                            entries.append(dict(level=len(mm.group(1)), href=mm.group(2),
                                                text=re.sub(r'\\textbf\{(.*?)\}', r'\1', mm.group(3) or mm.group(4) or '')))
                    check('%s @toc{%s}' % (what, mode), entries, selected(labels, mode, i), i, t)
                m = re.search(r'\bP\s(.*?)\sP\s+N\s(.*?)\sN\b', text, re.S)
            else:
                p = Lists()
                p.feed(text)
                lists = p.parts[1::2]
                body = [k for k, s in enumerate(p.parts) if k % 2 and re.search(r'M\d+M', p.parts[k - 1])]
                oc.expect(len(body) == len(modes), 'list:' + t, '%s: %d lists' % (what, len(body)))
                for n, mode in enumerate(modes[:len(body)]):
                    oc.expect('M%dM' % n in p.parts[body[n] - 1], 'list:' + t, '%s: %s' % (what, mode))
                    check('%s @toc{%s}' % (what, mode), p.parts[body[n]], selected(labels, mode, i), i, t)
                if t == 'html':
                    oc.expect(len(lists) == len(modes) + 1, 'menu', '%s: %d lists' % (what, len(lists)))
                    check('%s menu' % what, lists[0], selected(labels, 'all headings', i), i, t)
                m = re.search(r'\bP\s(.*?)\sP\s+N\s(.*?)\sN\b', ''.join(s for s in p.parts if isinstance(s, str)), re.S)
            if not oc.expect(m, 'navigation:' + t, '%s: %r' % (what, text[-600:])):
                continue
            for name, got, rel in (('prev', m.group(1), -1), ('next', m.group(2), 1)):
                r = neighbour(i, t, rel)
                got = flat(got)
                if r is None:
                    oc.expect(got == '', 'navigation:' + t, '%s: @%s is %r, not nothing' % (what, name, got))
                    continue
                mm = re.fullmatch(r'(?:\\href\{(.*?)\}\{(.*)\}|(.*))' if t == 'tex' else r'<a [^>]*?href="([^"]*)"[^>]*>(.*)</a>()', got)
                ok = oc.expect(mm and (mm.group(2) or mm.group(3)) == r['text'], 'navigation:' + t, '%s: @%s is %r, not %r' %
                               (what, name, got, r['text']))
                if ok:
                    check_link('%s @%s' % (what, name), mm.group(1), r, i, t)
                    seen.append([i, t, name, got])
    oc.state([case['layout'][0], seen])
