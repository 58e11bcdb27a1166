"""C19: outputs stay in the output directory and never overwrite each other.

Projects are built (real loader, tags, builders, deciders; stand-in commands whose result is a function of the contents read
and of the options) for all pairs of documents from a list of layouts, with every ordered choice of references to images,
equations and drawings from a list; every file created, every file referenced and every source is looked at afterwards."""
import hashlib
import html
import itertools
import os
import pathlib
import re
import shutil
import urllib.parse
import mc
import proj
import build
from mc import Outcome

PID = 'C19'
LEVEL = 'model_checking'
CASE_TIMEOUT = 600
RULE = ('all pairs (thorough: triples) out of 10 documents (nested, with periods and spaces in names, below and outside of the '
        'project root) x every list of references to images (same names in several directories, other formats of the same name, '
        'conversion options, absolute and parent paths), equations and drawings, in both orders, x 5 sets of targets; a state is '
        'the set of files created')
ASSUMPTIONS = ['the external commands write only the output named on the command line (they are stand-ins)']

DOCS = ['main.dm', 'ch.dm', 'ch.1.dm', 'ch.2.dm', 'sub/ch.1.dm', 'sub/main.dm', 'my doc.dm', 'media/ch.dm', '../up.dm', '../../up.dm']
IMAGES = ['x.png', 'x.pdf', 'x.tif', 'x.y.png', 'x.z.png', 'x.y.pdf', 'x.z.pdf', 'media/x.png', 'sub/x.png', 'sub/x.pdf',
          'sub/media/x.png', '../x.png', '../../x.png', 'mediafile.png', 'a b.png', 'x.svg', 'x.y.svg']
# references: what is written in the document
REFS = ['@img{x.png}', '@img{x.pdf}', '@img[scale=2.0]{x.pdf}', '@img[scale=3.0]{x.pdf}', '@img{x.tif}', '@img{x.y.png}',
        '@img{x.z.png}', '@img{x.y.pdf}', '@img{x.z.pdf}', '@img{media/x.png}', '@img{sub/x.png}', '@img{sub/x.pdf}',
        '@img{sub/media/x.png}', '@img{../x.png}', '@img{../../x.png}', '@img{mediafile.png}', '@img{a b.png}',
        '@img{ABS/one/p.png}', '@img{ABS/two/p.png}', '@eq{a=1}', '@eq{b=2}', '@asy{draw(1);}', '@asy{draw(2);}',
        '@asy[scale=2.0]{draw(1);}', '@img{x.svg}', '@img{x.y.svg}', '@img[scale=2.0]{x.svg}']
# only used in projects of their own
EXTRA = ['@img[scale=2.0]{sub/x.pdf}', '@img[scale=3.0]{sub/x.pdf}', '@img[scale=2.0]{x.svg}']
ALL = REFS + EXTRA
TARGETS = ['html', 'xhtml', 'html, xhtml', 'html, tex', 'tex, pdf']


def cases(tier):
    pairs = list(itertools.combinations(range(len(REFS)), 2))
    few = [REFS.index(r) for r in ('@img{x.png}', '@eq{a=1}', '@asy{draw(1);}')]
    for t in TARGETS:
        for d in DOCS[1:]:
            yield dict(t=t, docs=['main.dm', d], refs=few)
    for a, b in itertools.combinations(DOCS[1:], 2):
        yield dict(t='html, tex', docs=['main.dm', a, b], refs=few[:1])
    for a, b in pairs:
        yield dict(t='html', docs=['main.dm', 'sub/ch.1.dm'], refs=[a, b])
    for t in TARGETS[1:] if tier == 'thorough' else ['tex']:
        for a, b in pairs:
            yield dict(t=t, docs=['ch.1.dm'], refs=[b, a])
    if tier == 'thorough':
        for t in ('html', 'tex, pdf'):
            for d in DOCS[1:]:
                for a, b in pairs:
                    yield dict(t=t, docs=['main.dm', d], refs=[b, a])
        for t in TARGETS:
            for a, b, c in itertools.combinations(DOCS[1:], 3):
                yield dict(t=t, docs=['main.dm', a, b, c], refs=few)


def setup():
    build.install()


_w = {}


def world():
    if not _w:
        base = mc.newdir('c19')
        _w.update(base=base, src=os.path.join(base, 'p', 'q', 'src'), out=os.path.join(base, 'o', 'out'), solo={})
        os.makedirs(_w['src'])
        for n in IMAGES:
            proj.write(os.path.join(_w['src'], n), 'image ' + n)
        for n in ('one', 'two'):
            proj.write(os.path.join(base, 'abs', n, 'p.png'), 'image abs ' + n)
    return _w


def usable(ref, targets):
    return not ('svg' in ref and ('tex' in targets or 'pdf' in targets))


def source(doc, ref):
    """The meaning of a reference: the source and options, or the text and the kind of a drawing."""
    m = re.match(r'@img(\[.*\])?\{(.*)\}', ref)
    if not m:
        return ref
    opts, path = m.group(1) or '', m.group(2)
    if path.startswith('ABS'):
        return path + opts
    # the document's directory comes first, then the project root
    for base in (os.path.dirname(doc), ''):
        p = os.path.normpath(os.path.join(base, path))
        if p in IMAGES:
            return p + opts
    raise AssertionError((doc, ref))


def files(base, skip):
    res = {}
    for b, dirs, names in os.walk(base):
        dirs[:] = [d for d in dirs if os.path.join(b, d) != skip]
        for n in names:
            p = os.path.join(b, n)
            with open(p, 'rb') as f:
                res[os.path.relpath(p, base)] = f.read()
    return res


def run_project(oc, docs, refs, targets):
    """Builds; returns {(doc, ref, target): (path of the file, content)}."""
    w = world()
    shutil.rmtree(w['out'], True)
    os.makedirs(w['out'])
    what = '%r %r %s' % (docs, [ALL[r] for r in refs], targets)
    placed = []
    for i, d in enumerate(docs):
        body = ''.join('K%d %s\n\n' % (r, ALL[r].replace('ABS', w['base'] + '/abs')) for r in refs)
        proj.write(os.path.join(w['src'], d), proj.dm({'targets': targets, 'title': 'T%d' % i}, 'Document %d.\n\n%s' % (i, body),
                                                     include=docs[1:] if i == 0 else None))
        placed.append(os.path.normpath(os.path.join(w['src'], d)))
    before = files(w['base'], w['out'])
    env = proj.environment(os.path.join(w['src'], docs[0]), w['out'])
    del build.RUNS[:]
    rb = env.create_root_builder()
    status, n = rb.status, 0
    while status in ('ready', 'building') and n < 60:
        status = rb.build(complete=False)
        n += 1
    root = env.root_document
    by_src = {os.path.normpath(str(doc.src_filepath)): doc for doc in root.documents_list(recursive=True)}
    oc.expect(sorted(by_src) == sorted(placed), 'documents', '%s: %s' % (what, sorted(by_src)))
    # what the documents say
    res, owner, missing = {}, {}, []
    for i, p in enumerate(placed):
        for t in targets.split(', '):
            path = os.path.normpath(str(by_src[p].target_filepath('.' + t)))
            top = os.path.join(w['out'], t)
            oc.expect(path.startswith(top + os.sep), 'place', '%s: the target of %s is %s' % (what, docs[i], path))
            oc.expect(path not in owner, 'shared-target', '%s: %s is the target of %s and %s' % (what, path, owner.get(path), docs[i]))
            owner[path] = docs[i]
            if not os.path.isfile(path):
                missing.append(path)
                continue
            with open(path, 'rb') as f:
                text = f.read()
            if t == 'pdf':
                if 'tex' in targets.split(', '):
                    tex = pathlib.Path(str(by_src[p].target_filepath('.tex'))).read_bytes()
                    oc.expect(text.startswith(b'%PDF\n' + hashlib.sha1(tex).hexdigest().encode()), 'mixed',
                              '%s: the pdf of %s is not made from its tex' % (what, docs[i]))
                continue
            text = text.decode()
            oc.expect(re.findall(r'Document (\d)\.', text) == [str(i)], 'mixed', '%s: %s is not the text of %s' % (what, path, docs[i]))
            pattern = r'K(\d+) \s*(?:\\includegraphics(?:\[[^\]]*\])?\{\{(.*?)\}(\.\w+)\})?' if t == 'tex' else \
                r'K(\d+) \s*(?:<[^>]*?\b(?:src|data)="([^"]*)"())?'
            found = re.findall(pattern, text)
            oc.expect([int(k) for k, _, _ in found] == refs, 'references', '%s: %r in %s' % (what, found, path))
            for k, a, b in found:
                ref = ALL[int(k)]
                if t == 'tex':
                    if not a:
                        continue            # equations are written as text
                    f = os.path.normpath(a + b)
                else:
                    a = urllib.parse.unquote(html.unescape(a))
                    f = os.path.normpath(os.path.join(w['out'], t, os.path.dirname(os.path.relpath(path, top)), a)) \
                        if not a.startswith('/') else os.path.normpath(w['out'] + a)
                ok = os.path.isfile(f)
                oc.expect(ok, 'image-missing', '%s: %s %s refers to %s' % (what, docs[i], ref, f))
                oc.expect(f.startswith(os.path.join(w['out'], t) + os.sep) or f.startswith(os.path.join(w['out'], '.cache') + os.sep),
                          'image-place', '%s: %s %s refers to %s' % (what, docs[i], ref, f))
                if ok:
                    with open(f, 'rb') as fh:
                        res[docs[i], int(k), t] = (f, fh.read())
    # files created, sources kept
    after = files(w['base'], w['out'])
    oc.expect(after == before, 'sources', '%s: %s' % (what, sorted(set(after.items()) ^ set(before.items()))[:4]))
    made = files(w['out'], None)
    tops = set(targets.split(', ')) | {'.cache'}
    stray = [f for f in made if f.split(os.sep)[0] not in tops]
    oc.expect(not stray, 'stray', '%s: %s' % (what, stray[:4]))
    for p in placed:
        os.unlink(p)
    if env.decider._db is not None:
        env.decider._db.close()
    oc.traces += 1
    oc.transitions += len(made) + len(build.RUNS)
    oc.state(sorted(f for f in made if '.cache' not in f))
    return res, 'missing %s' % missing if status == 'done' and missing else status


def solo(oc, ref, src, target, targets):
    """What the same source and options give in a project of its own."""
    w = world()
    key = (src, target)
    if key not in w['solo']:
        r = [i for i, x in enumerate(ALL) if x.startswith(('@img', '@eq', '@asy')) and source('main.dm', x) == src]
        got, _ = run_project(Outcome(), ['main.dm'], r[:1], target)
        w['solo'][key] = got.get(('main.dm', r[0], target), (None, None))[1]
    return w['solo'][key]


def run(case):
    oc = Outcome()
    targets = case['t']
    refs = case['refs']
    if not all(usable(ALL[i], targets) for i in refs):
        return oc
    # images written by their path from the root are only the same from everywhere if the directory has none of that name
    res, status = run_project(oc, case['docs'], refs, targets)
    paths = {}
    for (doc, r, t), (path, content) in res.items():
        src = source(doc, ALL[r])
        drawn = not ALL[r].startswith('@img')
        paths.setdefault(path, {}).setdefault(src, []).append((doc, r, t, content))
    shared = False
    for path, by in paths.items():
        for a, b in itertools.combinations(sorted(by), 2):
            shared = True
            oc.expect(False, 'share:%s+%s' % (a.replace(' ', '_'), b.replace(' ', '_')), '%r %s: %s and %s both use %s' % (case['docs'], targets, a, b, path))
        if len(by) > 1:
            continue
        for src, uses in by.items():
            for doc, r, t, content in uses:
                want = solo(oc, ALL[r], src, t, targets)
                oc.expect(content == want, 'content:' + src, '%r %s: %s in %s gives %r, alone it gives %r' %
                          (case['docs'], targets, ALL[r], doc, content[:80], want and want[:80]))
    # documents that write the same file in turn are never finished; this is the same failure
    oc.expect(status == 'done' or shared, 'status', '%r' % (status,))
    oc.nontrivial += len(paths) > 1
    return oc
