"""C30: every project below a directory is found and built once, from its root document.

All small trees of directories with documents, and all include graphs over the documents of a project directory, are opened with
the real code (Environment.create_environments), built with the real command line and listed by the real preview server; the
reference computes the projects from the names of the files and the include graph alone."""
import asyncio
import html
import itertools
import os
import re
import shutil
import urllib.parse
import mc
import proj
import build
from mc import Outcome

PID = 'C30'
LEVEL = 'model_checking'
CASE_TIMEOUT = 300
RULE = ('all placements of 0 to 2 documents in each of 6 nested directories (quick: 0 or 1 in two of these), opened from 5 places in 3 spellings; all include graphs over 3 (thorough: '
        '4) documents of a directory with one below it, opened by directory and by each file; a build of each '
        'graph and of each pair of projects with the command line (with and without an output directory) and the listing of the preview server; a '
        'state is the set of projects with their root documents, trees and output directories')
ASSUMPTIONS = ['no symbolic links', 'documents are included by documents of the same project directory',
               'the files of a document that two projects include are not compared']

DIRS = ['.', 'a', 'a/src', 'a/src/sub', 'b.c', 'b.c/src']
NAMES = ['index.dm', 'b 1.dm', 'c.dm', 'd.dm']
SUB = 'sub/e.dm'


def cases(tier):
    n = 3
    for first in itertools.product(range(n), repeat=2):
        for v in range(3):
            yield dict(kind='place', first=list(first), v=v, max=[3, 3, 2, 2] if tier == 'quick' else [3] * 4)
    for row in graphs(3):
        yield dict(kind='graph', g=row, act='open')
    sub = list(graphs(3))
    for i, row in enumerate(sub):
        if tier == 'thorough' or i % 3 == 0:
            yield dict(kind='graph', g=row, act='build')
            yield dict(kind='graph', g=row, act='list')
    for pair in itertools.combinations(range(len(DIRS)), 2):
        yield dict(kind='pair', dirs=list(pair))
    if tier == 'thorough':
        for row in graphs(4):
            yield dict(kind='graph', g=row, act='open')


def graphs(n):
    """All include lists of the n documents in a directory: any set of the others, the first may include a document below as well."""
    opts = []
    for i in range(n):
        o = [list(s) for k in range(n) for s in itertools.combinations([j for j in range(n) if j != i], k)]
        opts.append(o)
    for row in itertools.product(*opts):
        for sub in (0, 1):
            yield [list(r) + ([9] if sub and i == 0 else []) for i, r in enumerate(row)]


def ref_projects(files):
    """The root documents by the place alone: the documents of the topmost directories with documents."""
    dirs = {os.path.dirname(f) for f in files}

    def above(d):
        while d:
            d = os.path.dirname(d)
            yield d
    return sorted(f for f in files if not any(u in dirs for u in above(os.path.dirname(f)) if u != os.path.dirname(f)))


def rel(env, base):
    root = os.path.realpath(str(env.root_document.src_filepath))
    return os.path.relpath(root, base)


def close(envs):
    for env in envs:
        db = getattr(env.decider, '_db', None)
        if db is not None:
            db.close()


def setup():
    build.install()


def run(case):
    oc = Outcome()
    here = os.getcwd()
    base = os.path.realpath(mc.newdir('c30'))
    try:
        globals()['run_' + case['kind']](oc, base, case)
    finally:
        os.chdir(here)
        shutil.rmtree(base, True)
    oc.traces += 1
    return oc


def run_place(oc, base, case):
    from disseminate.builders.environment import Environment
    for rest in itertools.product(*map(range, case['max'])):
        counts = list(case['first']) + list(rest)
        d = os.path.join(base, 'p')
        shutil.rmtree(d, True)
        files = []
        for name, n in zip(DIRS, counts):
            os.makedirs(os.path.join(d, name), exist_ok=True)
            proj.write(os.path.join(d, name, 'notes.txt'), 'not a document')
            for k in range(n):
                f = os.path.normpath(os.path.join(name, NAMES[k]))
                files.append(f)
                proj.write(os.path.join(d, f), proj.dm({'targets': 'html'}, 'Text of %s.\n' % f))
        starts = ['.'] + (['a', 'a/src', 'b.c', 'b.c/src'] if case['v'] == 0 or sum(counts) < 5 else [])
        for start in starts:
            os.chdir(os.path.join(d, start) if case['v'] == 0 else d)
            arg = ['.', start, os.path.join(d, start)][case['v']]
            below = [os.path.relpath(f, start) for f in files if start == '.' or f.startswith(start + '/')]
            want = sorted(os.path.normpath(os.path.join(start, f)) for f in ref_projects(below))
            envs = Environment.create_environments(root_path=arg)
            got = sorted(rel(e, d) for e in envs)
            oc.transitions += 1
            oc.expect(got == want, 'projects', 'documents %r, opened from %r: projects %r, expected %r' % (files, arg, got, want))
            for e in envs:
                r = rel(e, d)
                pr = os.path.relpath(os.path.realpath(str(e.project_root)), d)
                oc.expect(pr == (os.path.dirname(r) or '.') and str(e.root_document.src_filepath.subpath) == os.path.basename(r), 'root',
                          '%r: project root %r, subpath %r' % (r, pr, str(e.root_document.src_filepath.subpath)))
                t = os.path.relpath(os.path.realpath(str(e.target_root)), d)
                src = os.path.basename(os.path.realpath(str(e.project_root))) == 'src'
                # From inside of the directory, the name of the project directory isn't part of the path
                if str(e.project_root) not in ('.', ''):
                    up = os.path.dirname(os.path.dirname(r)) if src else os.path.dirname(r)
                    oc.expect(t == (up or '.'), 'target', '%r: opened from %r, output in %r' % (r, arg, t))
            oc.state([sorted(got), case['v'], start])
            close(envs)
        for f in files[:3]:
            os.chdir(d)
            envs = Environment.create_environments(root_path=f)
            oc.expect([rel(e, d) for e in envs] == [f], 'file', 'opened %r: projects %r' % (f, [rel(e, d) for e in envs]))
            close(envs)


def reach(g, i, seen=None):
    """The documents of the tree of a root document, each once."""
    seen = [] if seen is None else seen
    seen.append(i)
    for j in (g[i] if i != 9 else []):
        if j not in seen:
            reach(g, j, seen)
    return seen


def name(i):
    return SUB if i == 9 else NAMES[i]


def write_graph(d, g):
    for i, inc in enumerate(g):
        proj.write(os.path.join(d, name(i)), proj.dm({'targets': 'html, tex', 'title': 'Title %d' % i},
                   '@chapter{Head of %d}\nText %d.\n' % (i, i), [name(j) for j in inc]))
    proj.write(os.path.join(d, SUB), proj.dm({'title': 'Title 9'}, '@chapter{Head of 9}\nText 9.\n'))


def judge(oc, g, roots, where):
    """The roots: together they hold every document, and none of them is included by another one."""
    included = {j for r in roots for j in reach(g, r)[1:]}
    every = {j for r in roots for j in reach(g, r)}
    oc.expect(len(set(roots)) == len(roots), 'twice', '%s, includes %r: projects %r' % (where, g, roots))
    oc.expect(not (included & set(roots)), 'included-root', '%s, includes %r: the projects %r have root documents that are included by '
              'another one' % (where, g, [name(r) for r in roots]))
    free = {i for i in range(len(g)) if not any(i in inc for k, inc in enumerate(g) if k != i)}
    oc.expect(free <= set(roots), 'lost-root', '%s, includes %r: projects %r' % (where, g, roots))
    oc.expect(set(range(len(g))) <= every, 'lost', '%s, includes %r: projects %r don\'t hold every document' % (where, g, roots))


def run_graph(oc, base, case):
    from disseminate.builders.environment import Environment
    g = case['g']
    d = os.path.join(base, 'src')
    write_graph(d, g)
    os.chdir(base)
    envs = Environment.create_environments(root_path='.')
    by_name = {name(i): i for i in list(range(len(g))) + [9]}
    roots = [by_name[str(e.root_document.src_filepath.subpath)] for e in envs]
    judge(oc, g, roots, 'opened')
    for e, r in zip(envs, roots):
        docs = [by_name[str(x.src_filepath.subpath)] for x in e.root_document.documents_list(recursive=True)]
        oc.expect(docs == reach(g, r), 'tree', 'includes %r: the tree of %r has %r' % (g, name(r), docs))
    close(envs)
    oc.state([sorted(roots)])
    oc.transitions += 1
    if case['act'] == 'open':
        for i in range(len(g)):
            envs = Environment.create_environments(root_path='src/' + name(i))
            got = [str(e.root_document.src_filepath.subpath) for e in envs]
            oc.expect(got == [name(i)], 'file', 'opened %r: projects %r' % (name(i), got))
            close(envs)
    elif case['act'] == 'list':
        listing(oc, base, g, roots)
    else:
        tops = [set(reach(g, r)) for r in roots]
        if sum(map(len, tops)) > len(set().union(*tops)):
            # A document in two projects has the same files in both
            return
        want = {}
        # The files of each project, built on its own
        for r in roots:
            alone = os.path.join(base, 'alone%d' % r)
            write_graph(os.path.join(alone, 'src'), g)
            os.chdir(alone)
            command(oc, ['-i', 'src/' + name(r)])
            for p, text in outputs(alone).items():
                oc.expect(p not in want, 'shared', 'includes %r: two projects write %s' % (g, p))
                want[p] = text
        os.chdir(base)
        for args in ([], ['-i', 'src']):
            command(oc, args)
            got = outputs(base, skip='alone')
            oc.expect(got == want, 'files', 'includes %r, dm build %r: files %r; expected %r; different: %r' % (
                g, args, sorted(got), sorted(want), sorted(p for p in got if p in want and got[p] != want[p])))
        os.makedirs(os.path.join(base, 'out'))
        res = command(oc, ['-i', 'src', '-o', 'out'], ok=len(roots) == 1)
        got = outputs(os.path.join(base, 'out'))
        # the links to the sources depend on the place of the output
        got, want = [{k: re.sub(r'href="[./]*/src/', 'href="src/', v) for k, v in x.items()} for x in (got, want)]
        oc.expect(got == (want if len(roots) == 1 else {}), 'out-dir', 'includes %r: dm build -o with the projects %r: %r; %s; %r' % (
            g, roots, sorted(got), res, diff(got, want)))


def diff(a, b):
    """The first lines that differ."""
    return [(p, x, y) for p in sorted(a) if p in b for x, y in zip(a[p].split('\n'), b[p].split('\n')) if x != y][:3]


def outputs(d, skip='\0'):
    res = {}
    for top in ('html', 'tex'):
        for p, _, fs in os.walk(os.path.join(d, top)):
            for f in fs:
                if f.endswith(('.html', '.tex')):
                    res[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f)).read()
    return res


def command(oc, args, ok=True):
    from click.testing import CliRunner
    from disseminate.cli.main import main
    res = CliRunner().invoke(main, ['build'] + args)
    oc.expect((res.exit_code == 0) == ok, 'command', 'dm build %s: exit %r, %r, %r' % (' '.join(args), res.exit_code, res.output[-300:], res.exception))
    oc.transitions += 1
    return res.output[-200:]


def listing(oc, base, g, roots):
    """The page of the preview server with all documents."""
    import tornado.httpserver
    import tornado.netutil
    from disseminate.server.app import get_app
    from disseminate.server.handlers.store import reset_store, store
    from c20 import fetch

    async def main():
        server = tornado.httpserver.HTTPServer(get_app(in_path='.', out_dir=None))
        sockets = tornado.netutil.bind_sockets(0, '127.0.0.1')
        port = sockets[0].getsockname()[1]
        server.add_sockets(sockets)
        try:
            status, _, body = await fetch(port, '/')
            oc.expect(status == 200, 'listing', 'status %r' % status)
            tables = re.findall(r'(?s)<table.*?</table>', body.decode())
            rows = []
            for t in tables:
                rows.append([(html.unescape(re.sub(r'<[^>]*>', '', td)).strip(), re.findall(r'href="([^"]*)"', tr))
                             for tr, td in re.findall(r'(?s)(<tr class="level.*?<td class="src">(.*?)</td>.*?</tr>)', t)])
            want = sorted([name(i) for i in reach(g, r)] for r in roots)
            got = sorted([n for n, _ in t] for t in rows)
            oc.expect(got == want, 'listing', 'includes %r: listed %r, expected %r' % (g, got, want))
            for t in rows:
                for n, links in t:
                    stem = n[:-3]
                    dest = sorted(urllib.parse.unquote(html.unescape(l)).lstrip('/') for l in links)
                    need = sorted(['src/' + n, 'html/' + stem + '.html', 'tex/' + stem + '.tex'])
                    oc.expect([os.path.normpath(x) for x in dest] == need, 'links', '%s: links %r, expected %r' % (n, dest, need))
                    for l in links:
                        url = '/' + html.unescape(l).lstrip('/')
                        status, _, page = await fetch(port, url)
                        num = {name(i): i for i in list(range(len(g))) + [9]}[n]
                        text = html.unescape(re.sub(r'<[^>]*>', '', page.decode('utf-8', 'replace')))
                        oc.expect(status == 200 and 'Text %s.' % num in text, 'page', '%s: %s: status %r, %r' % (n, url, status, text[-200:]))
                        oc.transitions += 1
        finally:
            server.stop()
    try:
        asyncio.new_event_loop().run_until_complete(main())
    finally:
        close([e for e in (d.context.get('environment') for d in store.get('root_documents', [])) if hasattr(e, 'decider')])
        reset_store()


def run_pair(oc, base, case):
    """Two projects in different directories, built by one command."""
    from disseminate.builders.environment import Environment
    for counts in itertools.product((1, 2), repeat=2):
        d = os.path.join(base, 'p')
        shutil.rmtree(d, True)
        files = []
        for k, n in zip(case['dirs'], counts):
            for i in range(n):
                f = os.path.normpath(os.path.join(DIRS[k], NAMES[i]))
                files.append(f)
                proj.write(os.path.join(d, f), proj.dm({'targets': 'html, tex'}, 'Text of %s.\n' % f))
        os.makedirs(os.path.join(d, 'out'))
        want = {}
        for f in ref_projects(files):
            top = os.path.dirname(f)
            top = os.path.dirname(top) if os.path.basename(top) == 'src' else top
            stem = os.path.basename(f)[:-3]
            want[os.path.join(top, 'html', stem + '.html')] = f
            want[os.path.join(top, 'tex', stem + '.tex')] = f
        os.chdir(d)
        many = len(ref_projects(files)) > 1
        command(oc, ['-o', 'out'], ok=not many)
        got = outputs(os.path.join(d, 'out'))
        oc.expect(len(got) == (0 if many else 2), 'out-dir', 'documents %r: dm build -o out: %r' % (files, sorted(got)))
        command(oc, [])
        got = {}
        for p, _, fs in os.walk(d):
            for f in fs:
                if f.endswith(('.html', '.tex')) and not p.startswith(os.path.join(d, 'out')) and '.cache' not in p:
                    got[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f)).read()
        oc.expect(sorted(got) == sorted(want), 'files', 'documents %r: files %r, expected %r' % (files, sorted(got), sorted(want)))
        for p, f in want.items():
            oc.expect('Text of %s.' % f in got.get(p, ''), 'files', 'documents %r: %s does not have the text of %s' % (files, p, f))
        oc.state([sorted(got)])
