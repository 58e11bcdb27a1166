"""C25: epub files are complete and consistent containers.

Small projects (trees of documents with all kinds of names, images, references, titles) are built to epub with the real
loader, tags, renderers and builders (stand-ins for image converters only); each archive is read as a reading system does:
mimetype first and stored, container.xml, the package document, manifest, spine, navigation, and every link and image of every
page. After every edit of a history the archive must again be consistent, without entries of earlier contents."""
import itertools
import os
import posixpath
import re
import shutil
import urllib.parse
import zipfile
from xml.etree import ElementTree as ET
import mc
import proj
import build
from mc import Outcome

PID = 'C25'
LEVEL = 'model_checking'
CASE_TIMEOUT = 300
RULE = ('all pairs of documents out of 18 names and places in 3 shapes of trees, all subsets of 7 images of different formats and '
        'places with the places of documents, all pairs of special titles, links in relative and absolute style, sets of '
        'targets, all changes between 9 states of a project (thorough: all histories of 3 states); a state is the list of '
        'entries of an archive')
ASSUMPTIONS = ['converters of images are stand-ins']

NAMES = ['a.dm', 'b.dm', 'ch.1.dm', 'ch-1.dm', 'ch_1.dm', 'sub/a.dm', 'sub-a.dm', 'sub/b.dm', 'x y.dm', '1.dm', 'toc.dm', 'sub/toc.dm',
         'title.dm', 'content.dm', 'z/title.dm', 'Ä.dm', 'media/m.dm', 'A.dm']
IMAGES = ['i.png', 'i.svg', 'sub/i.png', 'j.pdf', 'k.tif', 'media/l.png', 'm n.png']
TITLES = ['Plain', 'A & B', 'x < y', 'a "b" c', 'Ärger', "it's", '']
OPF = '{http://www.idpf.org/2007/opf}'
DC = '{http://purl.org/dc/elements/1.1/}'
TYPES = {'.xhtml': 'application/xhtml+xml', '.css': 'text/css', '.svg': 'image/svg+xml', '.png': 'image/png', '.jpg': 'image/jpeg',
         '.gif': 'image/gif'}


def cases(tier):
    base = dict(root='main.dm', t='epub', link='', title='Book')
    for a, b in itertools.combinations(NAMES, 2):
        yield dict(base, states=[dict(docs=[a, b], tree='flat')])
    for a in NAMES:
        for tree in ('flat', 'nested'):
            yield dict(base, states=[dict(docs=[a, 'last.dm'], tree=tree)])
            yield dict(base, root=a if '/' not in a else 'main.dm', states=[dict(docs=['b/' + a], tree=tree)])
    for r in range(1, 3 if tier == 'quick' else 8):
        for images in itertools.combinations(IMAGES, r):
            yield dict(base, states=[dict(docs=['sub/c.dm'], tree='flat', images=list(images))])
    for a, b in itertools.product(TITLES, repeat=2):
        yield dict(base, title=a, states=[dict(docs=['a.dm'], tree='flat', titles=[b])])
    for link in ('', 'False'):
        for t in ('epub', 'html, epub', 'xhtml, epub', 'epub, pdf'):
            for toc in ('', '@toc{all documents}', '@toc{all headings}', '@toc{headings}', 'none'):
                yield dict(base, link=link, t=t, toc=toc, states=[dict(docs=['a.dm', 'sub/b.dm'], tree='flat', images=['i.png'])])
    some = [dict(docs=['a.dm'], tree='flat'), dict(docs=['b.dm'], tree='flat'), dict(docs=['a.dm', 'sub/b.dm'], tree='flat'),
            dict(docs=['sub/b.dm', 'a.dm'], tree='flat'), dict(docs=['a.dm', 'b.dm'], tree='nested'),
            dict(docs=['a.dm'], tree='flat', images=['i.png']), dict(docs=['a.dm'], tree='flat', images=['i.svg']),
            dict(docs=['a.dm'], tree='flat', heads=0), dict(docs=[], tree='flat')]
    for n in (2,) if tier == 'quick' else (2, 3):
        for hist in itertools.permutations(some, n):
            for mode in ('N', 'S'):
                yield dict(base, states=list(hist), mode=mode)


def setup():
    build.install()


_w = {}


def world():
    if not _w:
        base = mc.newdir('c25')
        _w.update(src=os.path.join(base, 'src'), out=os.path.join(base, 'out'))
    return _w


def order(case, st):
    return [case['root']] + st['docs']


def write(case, st):
    w = world()
    docs = order(case, st)
    for i, name in enumerate(docs):
        here = os.path.dirname(name)
        kids = (docs[1:] if i == 0 else []) if st['tree'] == 'flat' else docs[i + 1:i + 2]
        head = {}
        title = case['title'] if i == 0 else (st.get('titles') or ['Title %d' % i] * i)[i - 1]
        if title:
            head['title'] = title
        if i == 0:
            head['targets'] = case['t']
            if case['link']:
                head['relative_links'] = case['link']
            if case.get('toc'):
                head['toc'] = case['toc'] if case['toc'] != 'none' else ''
        parts = ['Document %d.' % i]
        if st.get('heads', 1):
            parts.append('@chapter[id=c%d]{Chapter & %d}' % (i, i))
            parts.append(' '.join('@ref{c%d}' % j for j in range(len(docs))))
        parts += ['@img{%s}' % im for im in st.get('images', [])]
        text = proj.dm(head, '\n\n'.join(parts) + '\n', include=[os.path.relpath(k, here or '.') for k in kids])
        path = os.path.join(w['src'], name)
        if not os.path.exists(path) or open(path, encoding='utf-8').read() != text:
            proj.write(path, text)


def run(case):
    oc = Outcome()
    w = world()
    for d in (w['src'], w['out']):
        shutil.rmtree(d, True)
        os.makedirs(d)
    for im in IMAGES:
        proj.write(os.path.join(w['src'], im), '<svg xmlns="http://www.w3.org/2000/svg"/>' if im.endswith('.svg') else 'image ' + im)
    env = None

    def close():
        if env is not None and env.decider._db is not None:
            env.decider._db.close()

    try:
        for n, st in enumerate(case['states']):
            write(case, st)
            if env is None or case.get('mode') == 'N':
                close()
                env = proj.environment(os.path.join(w['src'], case['root']), w['out'])
                rb = env.create_root_builder()
                status, count = rb.status, 0
                while status in ('ready', 'building') and count < 200:
                    status = rb.build(complete=False)
                    count += 1
            else:
                status = env.root_document.build()
            what = '%r step %d' % (case, n)
            oc.expect(status == 'done', 'status', '%s: %s' % (what, status))
            path = os.path.join(w['out'], 'epub', os.path.splitext(case['root'])[0] + '.epub')
            if oc.expect(os.path.isfile(path), 'no-epub', what):
                look(oc, what, path, case, st)
    except FileNotFoundError as e:
        oc.expect(False, 'absolute-links' if case['link'] else 'exception', '%r: %s' % (case, e))
    finally:
        close()
    oc.traces += 1
    return oc


def look(oc, what, path, case, st):
    with zipfile.ZipFile(path) as z:
        infos = z.infolist()
        data = {i.filename: z.read(i) for i in infos}
    names = [i.filename for i in infos]
    raw = open(path, 'rb').read(58)
    # the container
    oc.expect(names[0] == 'mimetype' and infos[0].compress_type == zipfile.ZIP_STORED and raw[30:58] == b'mimetypeapplication/epub+zip',
              'mimetype', '%s: %r' % (what, names[:1]))
    oc.expect(len(set(names)) == len(names), 'twice', '%s: %s' % (what, sorted(n for n in names if names.count(n) > 1)))
    bad = [n for n in names if n.startswith('/') or '..' in n.split('/') or '\\' in n]
    oc.expect(not bad, 'names', '%s: %s' % (what, bad))
    try:
        root = ET.fromstring(data['META-INF/container.xml'])
        opf = root.find('.//{*}rootfile').get('full-path')
        package = ET.fromstring(data[opf])
    except Exception as e:
        oc.expect(False, 'package', '%s: %r' % (what, e))
        return
    base = posixpath.dirname(opf)

    def entry(here, href):
        return posixpath.normpath(posixpath.join(here, urllib.parse.unquote(href)))

    # metadata
    title = ''.join(package.find('.//%stitle' % DC).itertext())
    want = case['title'] or None
    oc.expect(title.strip() == want if want else title.strip() != '', 'title', '%s: %r' % (what, title))
    ident = package.find('.//%sidentifier' % DC)
    oc.expect(ident.get('id') == package.get('unique-identifier') and ident.text, 'identifier', what)
    # the manifest
    items = package.findall('%smanifest/%sitem' % (OPF, OPF))
    ids = [i.get('id') for i in items]
    hrefs = [entry(base, i.get('href')) for i in items]
    oc.expect(len(set(ids)) == len(ids), 'ids', '%s: %s' % (what, sorted(i for i in ids if ids.count(i) > 1)))
    oc.expect(all(re.fullmatch(r'[^\W\d][\w.\-]*', i) for i in ids), 'id-name', '%s: %s' % (what, ids))
    listed = set(hrefs)
    oc.expect(len(listed) == len(hrefs), 'manifest-twice', '%s: %s' % (what, sorted(hrefs)))
    content = {n for n in names if n not in ('mimetype', opf) and not n.startswith('META-INF/')}
    oc.expect(listed == content, 'manifest', '%s: only in the manifest %s, only in the archive %s' %
              (what, sorted(listed - content), sorted(content - listed)))
    for i, href in zip(items, hrefs):
        oc.expect(i.get('media-type') == TYPES.get(posixpath.splitext(href)[1]), 'media-type', '%s: %s %s' %
                  (what, href, i.get('media-type')))
    # the navigation and the reading order
    nav = [h for i, h in zip(items, hrefs) if 'nav' in (i.get('properties') or '').split()]
    oc.expect(len(nav) == 1, 'nav', '%s: %s' % (what, nav))
    spine = [r.get('idref') for r in package.findall('%sspine/%sitemref' % (OPF, OPF))]
    oc.expect(len(set(spine)) == len(spine) and all(s in ids for s in spine), 'spine', '%s: %s' % (what, spine))
    read = [hrefs[ids.index(s)] for s in spine if s in ids]
    pages = [n for n in names if n.endswith('.xhtml')]
    oc.expect(set(read) == set(pages), 'spine', '%s: reads %s of %s' % (what, read, pages))
    docs = {}
    for n in pages:
        try:
            page = ET.fromstring(data[n])
        except ET.ParseError as e:
            oc.expect(False, 'page', '%s: %s %r' % (what, n, e))
            continue
        docs[n] = page
    text = {n: ''.join(p.itertext()) for n, p in docs.items()}
    found = [int(m.group(1)) for n in read for m in [re.search(r'Document (\d+)\.', text.get(n, ''))] if m]
    oc.expect(sorted(found) == list(range(len(order(case, st)))), 'pages', '%s: %s' % (what, found))
    # a page named title comes first
    seq = [int(re.search(r'Document (\d+)\.', text[n]).group(1)) for n in read if n in text and
           n not in (base + '/title.xhtml', base + '/toc.xhtml') and re.search(r'Document (\d+)\.', text[n])]
    oc.expect(seq == sorted(seq), 'order', '%s: %s' % (what, seq))
    # links
    for n, page in docs.items():
        here = posixpath.dirname(n)
        for e in page.iter():
            for attr in ('href', 'src', 'data'):
                url = e.get(attr)
                if url is None or re.match(r'[a-z]+:', url):
                    continue
                oc.transitions += 1
                base_url, _, frag = url.partition('#')
                to = entry(here, base_url) if base_url else n
                oc.expect(to in listed, 'link', '%s: %s in %s' % (what, url, n))
                if to in docs and frag:
                    anchors = [x for x in docs[to].iter() if x.get('id') == urllib.parse.unquote(frag)]
                    oc.expect(len(anchors) == 1, 'anchor', '%s: %s in %s' % (what, url, n))
        oc.expect(n in nav or len([e for e in page.iter() if e.tag.endswith('}img')]) == len(st.get('images', [])), 'images',
                  '%s: %s' % (what, n))
    if nav and nav[0] in docs and 'Document' not in text[nav[0]]:
        oc.expect([e for e in docs[nav[0]].iter() if e.tag.endswith('}a')], 'nav-empty', what)
    for n in names:
        if n.endswith('.css'):
            for url in re.findall(rb'url\([\'"]?(.*?)[\'"]?\)', data[n]):
                oc.expect(entry(posixpath.dirname(n), url.decode()) in listed, 'link', '%s: %r in %s' % (what, url, n))
    # nothing of other images
    used = {posixpath.basename(posixpath.splitext(i)[0]) for i in st.get('images', [])}
    extra = [n for n in names if posixpath.splitext(n)[1] in ('.png', '.svg') and
             posixpath.splitext(posixpath.basename(n))[0] not in used]
    oc.expect(not extra, 'earlier', '%s: %s' % (what, extra))
    oc.nontrivial += len(pages) > 2
    oc.state(sorted(names) + read)
