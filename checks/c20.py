"""C20: the preview server serves only project files, fresh and escaped.

The real application (handlers, templates, builders) listens on the loopback network in a directory of scratch files; requests
are written to the socket as they are. All request paths up to a number of segments are compared with a reference: which file
they name, if any; all histories of edits (also ones that cannot be rendered) are followed by requests for every page."""
import asyncio
import html
import io
import itertools
import os
import re
import shutil
import urllib.parse
import zipfile
import mc
import proj
import build
from mc import Outcome

PID = 'C20'
LEVEL = 'model_checking'
CASE_TIMEOUT = 600
RULE = ('all request paths of up to 2 (thorough: 3) segments out of 15 (names, empty, dots, a sibling directory, encoded dots and slashes, absolute '
        'places) before each of 14 final names; all histories of 2 (thorough: 3) out of 9 edits of a live project with requests '
        'for all pages after each, beginning with each of them; methods and malformed requests; a state is the status and kind of every answer')
ASSUMPTIONS = ['requests are answered one after another', 'no symbolic links in the project']

SEG = ['', '.', '..', '%2e%2e', '.%2e', '%2f', '..%2f..', 'src', 'html', 'sub', 'media', 'ABS', '%00', 'x%20y', 'project-2']
LAST = ['secret.dm', 'secret.html', 'secret.tex', 'secret.txt', 'secret.epub', 'main.dm', 'main.html', 'main.tex', 'plain.txt', 'sub',
        '', 'base.css', '%3Cscript%3Ealert(1)%3C', 'secret.dm%00.tex']
NEW = 'n w#1&2%20'          # the name of a document that is added
EDITS = ['edit-main', 'edit-sub', 'break-main', 'break-sub', 'unknown-ref', 'bad-image', 'drop-sub', 'add-new', 'mend']


def cases(tier):
    n = 2 if tier == 'quick' else 3
    heads = [()] + [s for k in range(1, n + 1) for s in itertools.product(SEG, repeat=k)]
    for i in range(0, len(heads), 12):
        yield dict(heads=heads[i:i + 12])
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for i, h in enumerate(itertools.product(EDITS, repeat=k)):
            # the page that is asked for first after each edit; it is the one that has to notice the edit
            for first in range(8) if k == 1 or tier == 'thorough' else ((0, 1, 2, 3, 4, 5, 7)[i % 7],):
                yield dict(edits=list(h), first=first)
    yield dict(raw=1)


class Executor(build.InlineExecutor):
    """Stand-ins for converters; they fail for bad.pdf."""

    def submit(self, fn, args=None, timeout=None, **kw):
        if any(str(a).endswith('bad.pdf') for a in args):
            from concurrent.futures import Future
            from disseminate.builders.executor import PopenResult
            f = Future()
            f.set_result(PopenResult(returncode=3, args=args, stdout='first line\n' + SCRIPT + 'out & more', stderr=SCRIPT + 'err'))
            return f
        return super().submit(fn, args, timeout, **kw)


def setup():
    from disseminate.builders import builder as b
    build.install()
    b.executor = Executor()


SCRIPT = '<script>alert(1)</script>'


class World(object):

    def __init__(self, targets):
        self.base = mc.newdir('c20')
        self.cwd = os.path.join(self.base, 'up', 'project')
        self.out = os.path.join(self.base, 'up', 'project')
        self.rev = {'main': 0, 'sub': 0}
        self.sub, self.new, self.broken = True, False, {}
        # The name of a sibling begins with that of the project
        for d in (self.base, os.path.join(self.base, 'up'), os.path.join(self.base, 'up', 'project-2')):
            for n in ('secret.dm', 'secret.html', 'secret.tex', 'secret.txt', 'secret.epub', 'main.dm', 'main.html', 'base.css'):
                proj.write(os.path.join(d, n), 'SECRET ' + n)
            proj.write(os.path.join(d, 'sub', 'secret.dm'), 'SECRET')
        for n, text in (('plain.txt', 'plain text'), ('sub/plain.txt', 'plain text in sub'), ('x y/plain.txt', 'spaces'),
                        ('sub/main.html', 'another page'), ('secret.tex', 'not secret'), ('html/plain.txt', 'html plain'), ('src/bad.pdf', '%PDF')):
            proj.write(os.path.join(self.cwd, n), text)
        self.targets = targets
        self.write()

    def body(self, name):
        return 'Text of %s number %d. %s' % (name, self.rev[name], self.broken.get(name, ''))

    def sources(self):
        include = ['sub/a.dm'] * self.sub + [NEW + '.dm'] * self.new
        res = {'src/main.dm': proj.dm({'title': 'Main & ' + SCRIPT, 'targets': self.targets},
                                      self.body('main') + ' Code: a < b & c.\n', include=include)}
        if self.sub:
            res['src/sub/a.dm'] = proj.dm({'title': 'Sub', 'targets': 'html, tex'}, self.body('sub') + '\n')
        if self.new:
            res['src/%s.dm' % NEW] = proj.dm({'title': 'New', 'targets': 'html, tex'}, 'Text of new number 0.\n')
        return res

    def write(self):
        for n, text in self.sources().items():
            p = os.path.join(self.cwd, n)
            if not os.path.exists(p) or open(p).read() != text:
                proj.write(p, text)

    def edit(self, e):
        self.rev['main'] += e == 'edit-main'
        self.rev['sub'] += e == 'edit-sub'
        if e == 'break-main':
            self.broken['main'] = '@b{open'
        if e == 'break-sub':
            self.broken['sub'] = '@img{nothing.png}'
        if e == 'bad-image':
            self.broken['main'] = '@img{bad.pdf}'
        if e == 'unknown-ref':
            self.broken['main'] = '@ref{%s}' % SCRIPT
        if e == 'mend':
            self.broken.clear()
        self.sub = self.sub and e != 'drop-sub'
        self.new = self.new or e == 'add-new'
        self.write()


async def fetch(port, path, method='GET', raw=None):
    """(status, headers, body) of a request that is sent as it is; status 0 if there is no answer."""
    reader, writer = await asyncio.open_connection('127.0.0.1', port)
    try:
        writer.write(raw if raw is not None else
                     ('%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n' % (method, path)).encode('latin-1'))
        await writer.drain()
        data = await asyncio.wait_for(reader.read(), 60)
    finally:
        writer.close()
    head, _, body = data.partition(b'\r\n\r\n')
    m = re.match(rb'HTTP/1\.1 (\d+)', head)
    if not m:
        return 0, b'', data
    return int(m.group(1)), head, body


def show(body):
    """The text of a highlighted page."""
    text = re.sub(r'(?s)<style.*?</style>', '', body.decode('utf-8', 'replace'))
    return html.unescape(re.sub(r'<[^>]*>', '', text))


def book(body):
    """The text of an epub file."""
    try:
        with zipfile.ZipFile(io.BytesIO(body)) as z:
            return ' '.join(show(z.read(n)) for n in z.namelist() if n.endswith('.xhtml'))
    except zipfile.BadZipFile:
        return ''


def run(case):
    import tornado.httpserver
    import tornado.testing
    import tornado.netutil
    from disseminate.server.app import get_app
    from disseminate.server.handlers.store import reset_store, store
    oc = Outcome()
    here = os.getcwd()
    w = World('html, tex, epub' if case.get('first') == 6 else 'html, tex')
    os.chdir(w.cwd)

    async def main():
        app = get_app(in_path='.', out_dir=None)
        server = tornado.httpserver.HTTPServer(app)
        sockets = tornado.netutil.bind_sockets(0, '127.0.0.1')
        port = sockets[0].getsockname()[1]
        server.add_sockets(sockets)
        try:
            if 'heads' in case:
                await paths(oc, w, port, case)
            elif 'edits' in case:
                await edits(oc, w, port, case)
            else:
                await odd(oc, w, port)
        finally:
            server.stop()
    try:
        asyncio.new_event_loop().run_until_complete(main())
    finally:
        for d in store.get('root_documents', []):
            env = d.context.get('environment')
            env = env() if callable(env) else env
            if getattr(getattr(env, 'decider', None), '_db', None) is not None:
                env.decider._db.close()
        reset_store()
        os.chdir(here)
        shutil.rmtree(w.base, True)
    oc.traces += 1
    return oc


def ok_error(oc, what, got, allowed=None):
    status, head, body = got
    oc.expect(400 <= status < 600 and (allowed is None or status in allowed), 'status', '%s: %r' % (what, (status, body[:200])))
    oc.expect(status == 0 or (b'text/html' in head and b'</html>' in body), 'error-page', '%s: %r' % (what, (status, body[-200:])))


async def paths(oc, w, port, case):
    import disseminate.server.handlers.server as hs
    media = os.path.normpath(str(hs.server_static_path))
    # the project is built
    got = await fetch(port, '/html/main.html')
    oc.expect(got[0] == 200, 'first', '%r' % (got,))
    for head in case['heads']:
        for last in LAST:
            path = '/' + '/'.join(list(head) + [last]).replace('ABS', urllib.parse.quote(w.base, safe='/'))
            what = path.replace(w.base, '<base>')
            if path == '/':
                continue
            got = await fetch(port, path)
            status, hd, body = got
            oc.transitions += 1
            named = urllib.parse.unquote(path[1:])
            if path.startswith('/media/'):
                root, rest, route = media, urllib.parse.unquote(path[len('/media/'):]), 'media'
            else:
                root, rest, route = w.cwd, named, 'project'
            target = os.path.normpath(os.path.join(root, rest))
            target = target if '\0' not in target else None
            inside = target is not None and (target == root or target.startswith(root + os.sep)) and not rest.startswith('/')
            oc.expect(b'SECRET' not in body, 'outside', '%s: %r' % (what, body[:300]))
            oc.expect(b'<script>alert' not in body, 'escape', '%s: %r' % (what, body[:300]))
            if inside and os.path.isfile(target):
                with open(target, 'rb') as f:
                    want = f.read()
                # a slash too much is not the name of the file: it may be refused
                exact = os.path.relpath(target, root) == rest
                if status != 200 and not exact:
                    ok_error(oc, what, got, (301, 400, 403, 404))
                    continue
                if route == 'project' and target.endswith(('.dm', '.tex')):
                    ok = re.sub(r'\s', '', want.decode()) in re.sub(r'\s', '', re.sub(r'(?m)^\s*\d+$', '', show(body)))
                else:
                    ok = body == want
                oc.expect(status == 200 and ok, 'serve', '%s: %r' % (what, (status, body[:200], want[:100])))
                oc.expect(b'nosniff' in hd, 'nosniff', what)
                oc.nontrivial += 1
            else:
                ok_error(oc, what, got, (400, 403, 404) + ((500,) if '\0' in rest else ()))
            oc.state([what, status])


async def edits(oc, w, port, case):
    done = []
    for e in [None] + case['edits']:
        if e:
            w.edit(e)
            done.append(e)
        live = ['main'] + ['sub'] * w.sub
        broken = [d for d in live if w.broken.get(d)]
        pages = [('main', 'main', 'html'), ('main', 'main', 'tex'), ('sub', 'sub/a', 'html'), ('sub', 'sub/a', 'tex'), ('new', NEW, 'html'),
                 ('new', NEW, 'tex')]
        if case['first'] == 7:
            await tree(oc, w, port, done, broken)
        if case['first'] == 6:
            pages.insert(0, ('main', 'main', 'epub'))
        else:
            pages = pages[case['first'] % 6:] + pages[:case['first'] % 6]
        for name, page, t in pages:
            here = name == 'main' or (name == 'sub' and w.sub) or (name == 'new' and w.new)
            what = '%r: /%s/%s.%s' % (done, t, page, t)
            got = await fetch(port, '/%s/%s.%s' % (t, urllib.parse.quote(page), t))
            oc.transitions += 1
            oc.expect(b'<script>alert' not in got[2], 'escape', '%s: %r' % (what, got[2][:3000]))
            if broken:
                # some document cannot be rendered: a page of the error, or the file
                oc.expect(got[0] == 200 or 400 <= got[0] < 600, 'status', '%s: %r' % (what, got[2][:200]))
                if got[0] != 200:
                    ok_error(oc, what, got)
                if w.broken.get('main') == '@img{bad.pdf}' and t == 'html' and name == 'main' and not w.broken.get('sub'):
                    text = got[2].decode('utf-8', 'replace')
                    oc.expect(got[0] == 500 and all(html.escape(SCRIPT + x) in text for x in ('out & more', 'err')) and
                              'code 3' in text, 'converter', '%s: %d %r' % (what, got[0], text[-2500:]))
                    oc.nontrivial += 1
            elif here:
                text = show(got[2]) if t != 'epub' else book(got[2])
                want = ' '.join((w.body(name) if name != 'new' else 'Text of new number 0.').split())
                oc.expect(got[0] == 200 and want in ' '.join(text.split()), 'stale', '%s: %d, no %r in %r' %
                          (what, got[0], want, text[-300:]))
                oc.nontrivial += 1
            oc.state([done, page, t, got[0]])
        # the sources
        for n, text in w.sources().items():
            got = await fetch(port, '/' + urllib.parse.quote(n))
            flat = re.sub(r'\s', '', re.sub(r'(?m)^\s*\d+$', '', show(got[2])))
            oc.expect(got[0] == 200 and re.sub(r'\s', '', text) in flat, 'source', '%r: /%s: %r' % (done, n, got))
            oc.expect(b'<script>alert' not in got[2], 'escape', '%r: %s' % (done, n))
        if case['first'] != 7:
            await tree(oc, w, port, done, broken)


async def tree(oc, w, port, done, broken):
    # the list of documents
    got = await fetch(port, '/')
    if broken:
        oc.expect(got[0] == 200 or 400 <= got[0] < 600, 'status', '%r: /: %r' % (done, got[2][:200]))
    else:
        # every link of the list leads to a source or a page of a document; all of them are listed
        links = [html.unescape(x) for x in re.findall(r'<a [^>]*?href="([^"]*)"', got[2].decode())]
        found = {}
        for x in links:
            u = urllib.parse.urlsplit(urllib.parse.urljoin('http://host/', x))
            if u.netloc == 'host' and u.path.endswith(('.dm', '.html', '.tex')):
                ans = await fetch(port, urllib.parse.quote(u.path, safe='/%') + ('?' + u.query if u.query else ''))
                oc.transitions += 1
                found[urllib.parse.unquote(u.path)[1:]] = ans[0]
        want = {n: 200 for n in w.sources()}
        want.update(('%s/%s.%s' % (t, n[4:-3], t), 200) for n in w.sources() for t in ('html', 'tex'))
        found = {k: v for k, v in found.items() if not k.endswith('.epub')}
        oc.expect(got[0] == 200 and found == want, 'tree', '%r: %r, not %r' % (done, sorted(found.items()), sorted(want.items())))
    oc.expect(b'<script>alert' not in got[2], 'escape', '%r: tree' % (done,))


async def odd(oc, w, port):
    for path in ('/', '/checkers', '/signals', '/html/main.html', '/src/main.dm', '/plain.txt', '/nothing', '/media/css/base.css'):
        for method in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'BREW'):
            got = await fetch(port, path, method)
            what = '%s %s' % (method, path)
            oc.transitions += 1
            if method == 'GET' and path != '/nothing':
                oc.expect(got[0] == 200 and got[2], 'page', '%s: %r' % (what, got))
            elif method == 'HEAD':
                oc.expect(got[0] in (200, 404, 405), 'head', '%s: %r' % (what, got))
            else:
                ok_error(oc, what, got, (404, 405))
            oc.state([what, got[0]])
    for raw in (b'', b'\r\n\r\n', b'GET\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'GET /%ff%fe.dm HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n',
                b'GET /\xff HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n', b'GET * HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n',
                b'GET http://other/etc/x.dm HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n'):
        try:
            await asyncio.wait_for(fetch(port, '', raw=raw), 0.5)
        except asyncio.TimeoutError:
            pass
        got = await fetch(port, '/plain.txt')
        oc.transitions += 1
        oc.expect(got[0] == 200 and got[2] == b'plain text', 'alive', '%r: %r' % (raw, got))
