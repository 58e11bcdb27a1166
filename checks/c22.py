"""C22: starter projects are copied completely and build.

The `init` command is run (through its command line interface) for every starter that the package ships and for all small
synthetic starter trees, into destinations in all combinations of earlier contents, options and answers; the destination
is compared, byte for byte, with the union of the starter and what was there. Each shipped starter is then built."""
import itertools
import os
import pathlib
import re
import sys
import mc
import build
from mc import Outcome

PID = 'C22'
LEVEL = 'model_checking'
RULE = ('all shipped starters and all synthetic starters of up to 2 (quick) or 3 (thorough) files of 14 shapes, crossed with '
        'subsets of 4 kinds of earlier contents of the destination, interactive or not, 4 answers, and the destination given '
        'or the current directory; all synthetic template trees of up to 3 starters of 6 places for the listing; each shipped '
        'starter built for its own targets')
ASSUMPTIONS = ['a starter has a description with a title and at least one file',
               'file names in a starter differ from that of the description file', 'external commands are stand-ins']
CASE_TIMEOUT = 300

SHAPES = [('src/a.dm', b'---\ntargets: html\n---\ntext\n', 0o644), ('src/sub/b.dm', b'b\r\n\r\n', 0o644),
          ('.hidden', b'h', 0o644), ('src/.dir/x', b'x', 0o644), ('empty.txt', b'', 0o644),
          ('pic.png', bytes(range(256)) * 5, 0o644), ('a name.txt', b'spaces', 0o644), ('\u00fcn\u00ef.txt', b'\xc3\xbc', 0o644),
          ('run.sh', b'#!/bin/sh\n', 0o755), ('src/a.dm.bak', b'bak', 0o644), ('a/b/c/d/deep', b'deep', 0o600),
          ('Makefile', b'all:\n\ttrue\n', 0o644), ('other.yaml', b'k: v\n', 0o644), ('src/description.txt', b'd', 0o444)]
PLACES = ['books/one', 'books/two', 'default', 'a/b/c', 'starters2/x', 'reports']
OLD = [[], ['zz.txt'], ['src/zz.dm'], ['SAME'], ['.zz', 'emptydir/']]
ANSWERS = ['y\n', 'n\n', '\n', '']
I = None


def setup():
    global I
    build.install()
    import disseminate.cli       # noqa
    I = sys.modules['disseminate.cli.init']


def shipped():
    """name -> folder, by walking the package"""
    root = pathlib.Path(mc.REPO) / 'src/disseminate/templates'
    res = {}
    for p in sorted(root.rglob('description.yaml')):
        rel = p.relative_to(root).parent
        res['/'.join(x for x in rel.parts if x != 'starters')] = p.parent
    return res


def cases(tier):
    dests = [(old, noni, ans, given) for old in range(len(OLD)) for noni in (0, 1)
             for ans in (range(len(ANSWERS)) if not noni else (0,)) for given in (0, 1)]
    for name in shipped():
        yield dict(kind='copy', name=name, dests=dests)
        yield dict(kind='build', name=name)
    for n in range(1, 3 if tier == 'quick' else 4):
        for c in itertools.combinations(range(len(SHAPES)), n):
            yield dict(kind='synth', shapes=list(c), dests=dests if n < 3 else dests[::3])
    for n in range(1, 4):
        for c in itertools.product(range(len(PLACES)), repeat=n):
            yield dict(kind='list', places=list(c))


def tree(d):
    res = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            res[os.path.relpath(p, d)] = (open(p, 'rb').read(), os.stat(p).st_mode & 0o111)
    return res


def put(path, data, mode=0o644):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    os.chmod(path, mode)


def initialise(oc, name, files, dests):
    """files: relative path -> (bytes, x bits)"""
    from click.testing import CliRunner
    from disseminate.cli import main
    for old, noni, ans, given in dests:
        top = mc.newdir('dest')
        dest = os.path.join(top, 'd')
        os.makedirs(dest)
        for f in OLD[old]:
            if f == 'SAME':
                f = sorted(files)[0]
            if f.endswith('/'):
                os.makedirs(os.path.join(dest, f))
            else:
                put(os.path.join(dest, f), b'old')
        before = tree(top)
        cwd = os.getcwd()
        args = ['init', name]
        if noni:
            args.append('-n')
        if given:
            args += ['-o', dest]
        os.chdir(cwd if given else dest)
        try:
            r = CliRunner().invoke(main, args, input=ANSWERS[ans])
        finally:
            os.chdir(cwd)
        oc.transitions += 1
        key = '%s%s' % ('-n' if noni else ANSWERS[ans].strip() or 'none', old)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        occupied = bool(OLD[old])
        asked = 'still want' in re.sub(r'\s+', ' ', r.output)
        oc.expect(asked == (occupied and not noni), 'asks:%s' % key, '%s: asked=%s for %s' % (args, asked, sorted(before)))
        want = dict(before)
        if not occupied or noni or ANSWERS[ans] == 'y\n':
            for f, v in files.items():
                want[os.path.join('d', f)] = v
        got = tree(top)
        oc.state((old, noni, ans, given, sorted((k, mc.h(repr(v))) for k, v in got.items())))
        if got != want:
            diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            what = 'missing' if any(k not in got for k in diff) else 'extra' if any(k not in want for k in diff) else 'changed'
            oc.fail('%s:%s' % (what, key), '%s into %s gives other files: %s' % (args, sorted(before), diff[:6]))
        oc.traces += 1
        mc.rmdir(top)


def copy(oc, case):
    folder = shipped()[case['name']]
    files = {k: v for k, v in tree(str(folder)).items() if k != 'description.yaml'}
    listed = I.generate_starters_dict()
    if oc.expect(case['name'] in listed, 'listed', '%s is not listed: %s' % (case['name'], sorted(listed))):
        initialise(oc, case['name'], files, case['dests'])


def synth(oc, case):
    top = mc.newdir('tpl')
    folder = os.path.join(top, 'kind/sort/starters/st')
    put(os.path.join(folder, 'description.yaml'), b'title: A\ndescription:\n  text\n  more\n')
    files = {}
    for k in case['shapes']:
        f, data, mode = SHAPES[k]
        put(os.path.join(folder, f), data, mode)
        files[f] = (data, mode & 0o111)
    # a neighbour, whose files are not of the starter
    put(os.path.join(top, 'kind/sort/starters/st2/description.yaml'), b'title: B\ndescription: text\n')
    put(os.path.join(top, 'kind/sort/starters/st2/src/other.dm'), b'other')
    put(os.path.join(top, 'kind/sort/html/template.html'), b'{{ body }}')
    saved, I.template_path = I.template_path, pathlib.Path(top)
    try:
        initialise(oc, 'kind/sort/st', files, case['dests'])
    finally:
        I.template_path = saved
        mc.rmdir(top)


def listing(oc, case):
    from click.testing import CliRunner
    from disseminate.cli import main
    top = mc.newdir('tpl')
    want = {}
    for n, k in enumerate(case['places']):
        folder = os.path.join(top, PLACES[k], 'starters', 'st%d' % n)
        put(os.path.join(folder, 'description.yaml'), ('title: T%d\ndescription:\n  About %d\n  more\n' % (n, n)).encode())
        put(os.path.join(folder, 'f%d' % n), b'%d' % n)
        want['%s/st%d' % (PLACES[k], n)] = ('T%d' % n, 'f%d' % n, PLACES[k])
    saved, I.template_path = I.template_path, pathlib.Path(top)
    try:
        d = I.generate_starters_dict()
        got = {k: (v['title'], ' '.join(I.starter_filepaths(v)), v['template']) for k, v in d.items()}
        oc.expect(got == want, 'list', 'the starters are %s, not %s' % (got, want))
        r = CliRunner().invoke(main, ['init', '--list'])
        names = [l.split(' ')[0] for l in re.sub('\x1b\\[[0-9;]*m', '', r.output).splitlines() if l and not l.startswith(' ')]
        oc.expect(sorted(names) == sorted(want), 'list:cli', 'init --list shows %s, not %s' % (names, sorted(want)))
        cwd = os.getcwd()
        dest = mc.newdir('dest')
        os.chdir(dest)
        try:
            r = CliRunner().invoke(main, ['init', 'nosuch/starter'])
        finally:
            os.chdir(cwd)
        oc.expect(r.exit_code not in (0, None) and tree(dest) == {}, 'unknown',
                  'an unknown starter gives exit code %s and files %s' % (r.exit_code, sorted(tree(dest))))
        mc.rmdir(dest)
        oc.state(sorted(want))
        oc.transitions += 3
        oc.traces += 1
    finally:
        I.template_path = saved
        mc.rmdir(top)


def built(oc, case):
    from click.testing import CliRunner
    from disseminate.cli import main
    from disseminate.builders.environment import Environment
    dest = mc.newdir('dest')
    r = CliRunner().invoke(main, ['init', case['name'], '-o', dest])
    if r.exception is not None:
        raise r.exception
    srcs = tree(dest)
    envs = Environment.create_environments(root_path=dest)
    name = case['name']
    oc.expect(len(envs) == 1, 'roots:' + name, '%d projects are found' % len(envs))
    for env in envs:
        rb = env.create_root_builder()
        status, n = rb.status, 0
        while status in ('ready', 'building') and n < 500:
            status = rb.build(complete=False)
            n += 1
        oc.transitions += n
        oc.expect(status == 'done', 'status:' + name, 'the build of %s gives %s' % (name, status))
        docs = env.root_document.documents_list(only_subdocuments=False, recursive=True)
        loaded = sorted('src/' + str(d.src_filepath.subpath) for d in docs)
        oc.expect(loaded == sorted(k for k in srcs if k.endswith('.dm')), 'docs:' + name, 'the documents are %s' % loaded)
        html = tex = 0
        for d in docs:
            sub = str(d.src_filepath.subpath)[:-3]
            text = srcs['src/' + sub + '.dm'][0].decode()
            m = re.search(r'^targets:(.*)$', text, re.M)
            for t in (m.group(1) if m else '').replace(',', ' ').split():
                if t == 'none':
                    continue
                out = os.path.join(dest, t, sub + '.' + t)
                if d is docs[0] or t != 'epub':
                    oc.expect(os.path.isfile(out) and os.path.getsize(out) > 0, 'output:%s:%s' % (name, t),
                              '%s is not created' % out)
            for t, p in d.targets.items():
                oc.expect(t == '.epub' and d is not docs[0] or os.path.isfile(str(p)), 'output2:%s:%s' % (name, t),
                          '%s is not created' % p)
                html += t == '.html'
                tex += t in ('.tex', '.pdf')
        oc.expect(html and tex, 'targets:' + name, 'no html and tex targets')
        after = tree(dest)
        oc.expect(all(after.get(k) == v for k, v in srcs.items()), 'sources:' + name, 'the sources changed')
        oc.state(sorted(after))
        if env.decider._db is not None:
            env.decider._db.close()
    oc.traces += 1
    mc.rmdir(dest)


def run(case):
    oc = Outcome()
    dict(copy=copy, synth=synth, list=listing, build=built)[case['kind']](oc, case)
    return oc
