"""C09: references point at the labelled place, in every target format.

Small projects are built with the real loader, label manager, tags, builders and templates (the external commands are
stand-ins). Every document refers to every label of every document, before and after its own labels. Each reference found in
each file is resolved as a reader's program does and compared with a reference model: the text of the label's kind with its own
title and numbers, the file of the document that owns the label, the anchor there."""
import html
import itertools
import os
import re
import shutil
import urllib.parse
import mc
import proj
import build
import c08
from mc import Outcome

PID = 'C09'
LEVEL = 'model_checking'
CASE_TIMEOUT = 300
RULE = ('all assignments of targets (8 sets) to the documents of 4 two-document layouts and of 3 link styles; all pairs of '
        'sequences of kinds of labels of lengths (2, 1) (thorough: (2, 2) and three documents); documents with the same ids; '
        'custom formats; histories of 2 (thorough: 3) edits of one document (labels move, titles change); unknown labels in every '
        'spelling; every document refers to all labels, each reference is checked in '
        'every target; a state is the set of references and resolved links of a project')
ASSUMPTIONS = ['the external commands are stand-ins; the text of a pdf is the text of the tex file it is made from']

TARGETS = ['html', 'xhtml', 'tex', 'pdf', 'txt', 'html, tex', 'tex, pdf', 'html, xhtml, tex, pdf, txt']
LAYOUTS = [['main.dm', 'a.dm'], ['main.dm', 'sub/b.dm'], ['main.dm', 'sub/ch.1.dm'], ['main.dm', 'x/my doc.dm']]
LAYOUTS3 = [['main.dm', 'sub/b.dm', 'sub/c.dm'], ['main.dm', 'x/b.dm', 'y/z/c.dm'], ['main.dm', 'a.dm', 'a/a.dm']]
LINKS = ['', 'False', '/base/{target}/{subpath}']
KINDS = ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'marginfig', 'fig', 'fullfig', 'table']
FIGS = ('marginfig', 'fig', 'fullfig')
CUSTOM = {'ref_heading_section': 'S@b{@label.section_number}: @label.title', 'ref_caption_figure': 'F@label.number',
          'ref_document': 'D: @label.title', 'ref_heading': 'H: @label.title'}


def cases(tier):
    every = TARGETS[-1]
    seq = ['chapter', 'section', 'marginfig']
    for docs in LAYOUTS:
        for link in LINKS:
            for a in TARGETS:
                for b in TARGETS:
                    if tier == 'thorough' or (docs == LAYOUTS[1] and link == '') or a == b:
                        yield dict(docs=docs, link=link, t=[a, b], k=[seq, ['section', 'table']])
    kinds = KINDS if tier == 'thorough' else [k for k in KINDS if k not in ('subsubsection', 'fig', 'fullfig')]
    for a in itertools.product(kinds, repeat=2):
        for b in kinds:
            yield dict(docs=LAYOUTS[1], link='', t=['html, tex', 'html, tex'], k=[list(a), [b]])
            if tier == 'thorough':
                for c in kinds[:6]:
                    yield dict(docs=LAYOUTS[1], link='', t=[every, every], k=[list(a), [b, c]])
    for docs in LAYOUTS3:
        for link in LINKS:
            for t in itertools.product(TARGETS[-2:] if tier == 'quick' else TARGETS, repeat=3):
                yield dict(docs=docs, link=link, t=list(t), k=[seq, ['section', 'fig'], ['chapter', 'table']])
    for docs in LAYOUTS[:2] + LAYOUTS3[:1]:
        for opts in itertools.product((0, 1), repeat=4):
            o = dict(zip(('same', 'custom', 'docid', 'short'), opts))
            yield dict(docs=docs, link='', t=[every] * len(docs), k=[seq, ['section', 'fig'], ['chapter', 'table']][:len(docs)],
                       opt=o)
    # edits of one document, in a project that is loaded: the references of the others follow
    orders = [([0, 1], 1), ([1, 0], 0), ([1, 0], 1), ([0, 1], 2)]
    few = ['chapter', 'section', 'marginfig'] if tier == 'quick' else KINDS
    for a, b in itertools.permutations(few, 2):
        for i in (0, 1):
            for steps in itertools.permutations(orders, 2 if tier == 'quick' else 3):
                if tier == 'thorough' or steps[0][0] != steps[1][0]:
                    yield dict(docs=LAYOUTS[1], link='', t=['html, tex', 'html, tex'], k=[[a, b], [b, a]],
                               steps=[[i] + list(s) for s in steps])
    for docs in LAYOUTS[:2]:
        for where in range(len(docs)):
            for bad in ('nope', 'main.dm::nope', 'nope.dm::d0i0', 'd0i', 'D0i0', 'd0i00', 'doc:nope', 'doc:main.dm', '::d0i0',
                        docs[1] + '::d0i0', 'main.dm::d1i0', 'd0i0::main.dm'):
                for t in ('html', 'tex', 'txt', 'xhtml') if tier == 'thorough' else ('html', 'tex'):
                    yield dict(docs=docs, link='', t=[t] * 2, k=[seq, ['section', 'table']], bad=[where, bad])


def setup():
    build.install()


_w = {}


def world():
    if not _w:
        base = mc.newdir('c09')
        _w.update(src=os.path.join(base, 'src'), out=os.path.join(base, 'out'))
        os.makedirs(_w['src'])
        proj.write(os.path.join(_w['src'], 'x.png'), 'image')
    return _w


def kindof(k):
    return ('caption', 'figure') if k in FIGS else ('caption', 'table') if k == 'table' else ('heading', k)


def doc_label(doc):
    return 'doc:' + re.sub(r'[^a-z0-9]+', '-', doc.lower()).strip('-')


REV = ['', ' new', ' newer']


def body(i, kinds, opt, order, rev):
    out = []
    for j in order:
        k = kinds[j]
        lid = ident(i, j, opt)
        if k in FIGS:
            out.append('@%s[id=%s]{@img{x.png} @caption{Cap %d %d%s}}' % (k, lid, i, j, REV[rev]))
        elif k == 'table':
            out.append('@table[id=%s]{@caption{Cap %d %d%s}}' % (lid, i, j, REV[rev]))
        else:
            short = ' short="Short %d %d"' % (i, j) if opt.get('short') else ''
            out.append('@%s[id=%s%s]{Head %d %d%s}' % (k, lid, short, i, j, REV[rev]))
    return '\n\n'.join(out)


def ident(i, j, opt):
    return 'i%d' % j if opt.get('same') else 'd%di%d' % (i, j)


def flat(text):
    return re.sub(r'\s+', ' ', text).strip()


def want_text(rec, target, custom):
    bold = {'html': '<strong>%s</strong>', 'xhtml': '<strong>%s</strong>', 'tex': r'\textbf{%s}', 'txt': '%s'}[target]
    kind = rec['kind']
    if kind[0] == 'document':
        return ('D: ' if custom else '') + rec['title']
    if kind == ['caption', 'figure']:
        return 'F%d' % rec['order'][-1] if custom else bold % ('Fig. %d' % rec['order'][-1])
    if kind == ['caption', 'table']:
        return bold % ('Table %d' % rec['order'][-1])
    if kind[1] in ('part', 'chapter'):
        return '%s %d. %s' % (kind[1].title(), rec['order'][-1], rec['title'])
    if custom and kind[1] == 'section':
        return 'S%s: %s' % (bold % rec['order'][-1], rec['title'])
    return ('H: ' if custom else '') + rec['title']


def model(case, state):
    """(labels, references) of the documents in a state: the order of the labels, and a revision of titles, per document."""
    docs, opt = case['docs'], case.get('opt', {})
    ids = ['id-%d' % i if opt.get('docid') else d for i, d in enumerate(docs)]
    seq = []
    for i, d in enumerate(docs):
        order, rev = state[i]
        seq.append((i, doc_label(d), ('document', 'document-level-%d' % (1 + (i > 0))), 'Title %d' % i))
        for j in order:
            k = case['k'][i][j]
            title = 'Cap %d %d%s' % (i, j, REV[rev]) if kindof(k)[0] == 'caption' else \
                'Short %d %d' % (i, j) if opt.get('short') else 'Head %d %d%s' % (i, j, REV[rev])
            seq.append((i, ident(i, j, opt), kindof(k), title))
    labels = c08.reference(seq)
    # the references: by id, and by document and id; they stay the same when the labels move
    refs = []
    for rec in sorted(labels, key=lambda r: (r['doc'], r['kind'][0] != 'document', r['id'])):
        if not opt.get('same') or rec['kind'][0] == 'document':
            refs.append((rec['id'], rec))
        refs.append(('%s::%s' % (ids[rec['doc']], rec['id']), rec))
    return labels, refs


def write(case, state, refs, old=None):
    """Writes the documents that differ."""
    docs, link, opt = case['docs'], case['link'], case.get('opt', {})
    text = ' '.join('K%d (@ref{%s})' % (n, r) for n, (r, _) in enumerate(refs))
    placed = []
    for i, d in enumerate(docs):
        placed.append(os.path.join(world()['src'], d))
        if old and old[i] == state[i]:
            continue
        head = {'title': 'Title %d' % i, 'targets': case['t'][i]}
        if i == 0 and link:
            head['relative_links'] = 'False'
            if link != 'False':
                head['base_url'] = link
        if opt.get('docid'):
            head['doc_id'] = 'id-%d' % i
        src = proj.dm(head, '', include=docs[1:] if i == 0 else None)
        if i == 0 and opt.get('custom'):
            src = src[:-4] + 'label_fmts:\n' + ''.join('  %s: %s\n' % kv for kv in sorted(CUSTOM.items())) + '---\n'
        extra = ' @ref{%s}' % case['bad'][1] if 'bad' in case and case['bad'][0] == i else ''
        parts = ['Start. ' + text + extra, body(i, case['k'][i], opt, *state[i]), 'End. ' + text]
        proj.write(placed[-1], src + '\n\n'.join(parts) + '\n')
    return placed


def run(case):
    oc = Outcome()
    w = world()
    docs = case['docs']
    shutil.rmtree(w['out'], True)
    os.makedirs(w['out'])
    state = [(tuple(range(len(k))), 0) for k in case['k']]
    labels, refs = model(case, state)
    placed = write(case, state, refs)
    env = None
    status = 'error'
    try:
        env = proj.environment(os.path.join(w['src'], 'main.dm'), w['out'])
        for step in [None] + case.get('steps', []):
            if step:
                old, state = state, list(state)
                i, order, rev = step
                state[i] = (tuple(order), rev)
                labels, refs = model(case, state)
                write(case, state, refs, old)
            if step:
                # as the server does
                status = env.root_document.build()
            else:
                rb = env.create_root_builder()
                status, n = rb.status, 0
                while status in ('ready', 'building') and n < 200:
                    status = rb.build(complete=False)
                    n += 1
            if 'bad' in case:
                break
            root = env.root_document
            by_src = {os.path.normpath(str(doc.src_filepath)): doc for doc in root.documents_list(recursive=True)}
            look(oc, case, [by_src[p] for p in placed], labels, refs)
            oc.expect(status == 'done', 'status', '%r: %s' % (case, status))
    except Exception as e:
        if 'bad' not in case:
            raise
        status = type(e).__name__
    finally:
        if env is not None and env.decider._db is not None:
            env.decider._db.close()
        for p in placed:
            os.unlink(p)
    if 'bad' in case:
        oc.expect(status == 'LabelNotFound', 'unknown', '%r: %s' % (case, status))
        oc.state(['bad', status, case['bad']])
    oc.traces += 1
    return oc


def path_of(out, doc, target):
    path = str(doc.target_filepath('.' + target))
    return os.path.relpath(path, out)


def look(oc, case, docs, labels, refs):
    w = world()
    out, link, opt = w['out'], case['link'], case.get('opt', {})
    targets = [t.split(', ') for t in case['t']]
    texts = {}

    def content(i, t):
        """The text of document i in target t."""
        if (i, t) not in texts:
            path = os.path.join(out, path_of(out, docs[i], t)) if t in targets[i] else \
                os.path.join(out, '.cache', 'tex', os.path.splitext(case['docs'][i])[0] + '.tex')
            texts[i, t] = open(path, encoding='utf-8').read()
        return texts[i, t]

    seen = []
    for i in range(len(docs)):
        for t in sorted(set('tex' if x == 'pdf' else x for x in targets[i])):
            what = '%r: %s of %s' % (case, t, case['docs'][i])
            text = content(i, t)
            # every anchor is there once
            for rec in labels:
                if rec['doc'] == i and rec['kind'][0] != 'document':
                    n = 1 if t == 'txt' else len(re.findall(r'\\label\{%s\}' % rec['id'], text)) if t == 'tex' else \
                        len(re.findall(r'\sid="%s"' % rec['id'], text))
                    oc.expect(n == 1, 'anchor:' + t, '%s has %d anchors for %s' % (what, n, rec['id']))
            found = [(int(a), flat(b)) for a, b in re.findall(r'K(\d+)\s+\((.*?)\)', text, re.S)]
            if not oc.expect([a for a, _ in found] == list(range(len(refs))) * 2, 'references', '%s: %r' % (what, found)):
                continue
            for n, got in found:
                name, rec = refs[n]
                j = rec['doc']
                oc.transitions += 1
                want = want_text(rec, t, opt.get('custom'))
                anchor = '' if rec['kind'][0] == 'document' else rec['id']
                if t == 'txt':
                    oc.expect(got == want, 'text:txt', '%s: @ref{%s} is %r, not %r' % (what, name, got, want))
                    continue
                pattern = r'\\href\{(.*?)\}\{(.*)\}()()' if t == 'tex' else r'<(a|span) ([^>]*)>(.*)</(a|span)>'
                m = re.fullmatch(pattern, got)
                if t == 'tex':
                    url, inner = (m.group(1), m.group(2)) if m else (None, got)
                    file_target = 'pdf'
                else:
                    if not oc.expect(m, 'form:' + t, '%s: @ref{%s} is %r' % (what, name, got)):
                        continue
                    attrs = dict(re.findall(r'([\w-]+)="([^"]*)"', m.group(2)))
                    oc.expect(attrs.get('class') == 'ref' and m.group(1) == m.group(4), 'form:' + t, '%s: %r' % (what, got))
                    url, inner = (urllib.parse.unquote(html.unescape(attrs['href'])) if 'href' in attrs else None), m.group(3)
                    oc.expect((url is not None) == (m.group(1) == 'a'), 'form:' + t, '%s: %r' % (what, got))
                    file_target = t
                oc.expect(inner == want, 'text:' + t, '%s: @ref{%s} is %r, not %r' % (what, name, inner, want))
                # is there a file to link to?
                reachable = file_target in targets[j] and (link != '' or file_target in targets[i])
                if not url:
                    # nothing to link to: another document without this target, or the document itself without an anchor
                    ok = not reachable or (i == j and not anchor)
                    ok = ok or (t == 'tex' and file_target not in targets[i])
                    oc.expect(ok, 'no-link:' + t, '%s: @ref{%s} is %r' % (what, name, got))
                    seen.append([t, i, n, None])
                    continue
                base, _, frag = url.partition('#')
                oc.expect(frag == anchor, 'fragment:' + t, '%s: @ref{%s} links to %r' % (what, name, url))
                if base == '':
                    oc.expect(i == j, 'link:' + t, '%s: @ref{%s} links to %r' % (what, name, url))
                    seen.append([t, i, n, '#'])
                    continue
                if not oc.expect(reachable, 'dead-link:' + t, '%s: @ref{%s} links to %r' % (what, name, url)):
                    continue
                owner = path_of(out, docs[j], file_target)
                if link == '':
                    here = path_of(out, docs[i], file_target)
                    to = os.path.normpath(os.path.join(os.path.dirname(here), base))
                else:
                    prefix = '/' if link == 'False' else '/base/'
                    oc.expect(base.startswith(prefix), 'link:' + t, '%s: @ref{%s} links to %r' % (what, name, url))
                    to = os.path.normpath(base[len(prefix):])
                oc.expect(to == owner, 'link:' + t, '%s: @ref{%s} links to %r, that is %s, not %s' % (what, name, url, to, owner))
                oc.expect(os.path.isfile(os.path.join(out, to)), 'dead-link:' + t, '%s: no file %s' % (what, to))
                seen.append([t, i, n, to])
                oc.nontrivial += 1
    oc.state([case['docs'], seen])
