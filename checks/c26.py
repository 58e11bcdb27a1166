"""C26: files are found by the documented search order.

All ways of placing a file in the search places (the directories of the template and of its parent template, the directory of
the document, the project root) and in places that are not searched are tried with all spellings of references, in image,
code and data tags of real documents; the file that is used is compared with the documented precedence."""
import itertools
import os
import pathlib
import mc
import proj
from mc import Outcome

PID = 'C26'
LEVEL = 'model_checking'
RULE = ('all 2^7 ways of placing a file in 4 searched and 3 unsearched places, each with all of the spellings of the reference (in one or '
        'two lines), for documents in the project root, in a directory and in a nested directory, with a template with or '
        'without a parent template; every one is looked up directly and by img, code and csv tags')
ASSUMPTIONS = ["the process's working directory holds none of the files (a name that is a valid path from there is used "
               'as it is)', 'a place is not changed while a document is processed']

# (reference, name of the file that is placed)
NAMES = [('fig.png', 'fig.png'), ('sub/fig.png', 'sub/fig.png'), ('./fig.png', 'fig.png'), ('sub/../fig.png', 'fig.png'),
         ('../fig.png', 'fig.png'), ('../ch1/fig.png', 'fig.png'), ('  fig.png \n', 'fig.png'), ('\n\n  sub/fig.png\n', 'sub/fig.png'),
         ('missing.png\nfig.png', 'fig.png'), ('fig.png\nsub/fig.png', 'sub/fig.png'), ('sub/fig.png\nother.png', 'other.png'),
         ('ch1/fig.png', 'fig.png'), ('fig', 'fig.png'), ('sub', 'sub/fig.png'), ('FIG.png', 'fig.png'), ('.', 'fig.png'), ('..', 'fig.png'),
         ('a b/f\u00efg 1.png', 'a b/f\u00efg 1.png'), ('x' * 300, 'fig.png'), ('fig.png/x', 'fig.png'), ('*.png', 'fig.png'),
         ('~/fig.png', 'fig.png'), ('%fig.png', 'fig.png'), ('src/fig.png', 'fig.png'), ('abs:local', 'fig.png'), ('abs:root', 'fig.png'),
         ('abs:above', 'fig.png'), ('abs:child', 'sub/fig.png'), ('.fig.png', '.fig.png'), ('fig.tar.png', 'fig.tar.png')]
PLACES = ['child', 'parent', 'local', 'root', 'above', 'sibling', 'other']
DOCS = {'root': 'doc.dm', 'dir': 'ch1/doc.dm', 'nested': 'ch1/in/doc.dm'}


def cases(tier):
    for where, tpl, i in itertools.product(DOCS, (0, 1, 2), range(len(NAMES))):
        if tier == 'quick' and i % 3 != (tpl + list(DOCS).index(where)) % 3:
            continue
        yield dict(where=where, tpl=tpl, name=i)


def project(tmp, where, tpl):
    """A project with the document and the templates; returns the document and its places"""
    from disseminate import settings
    import jinja2
    t = pathlib.Path(tmp)
    tp = t / 'templates'
    if not hasattr(jinja2.PackageLoader, 'plain_get_source'):
        jinja2.PackageLoader.plain_get_source = jinja2.PackageLoader.get_source

    def get_source(self, environment, template):
        """Also finds the templates of the check"""
        if template.startswith('c26/'):
            return jinja2.FileSystemLoader(str(tp)).get_source(environment, template)
        return self.plain_get_source(environment, template)
    jinja2.PackageLoader.get_source = get_source
    ext = "{%% extends '%s' %%}\n"
    for name, parent in (('c26/child', 'c26/parent/html/template.html'), ('c26/parent', 'default/html/template.html'),
                         ('c26/other', 'default/html/template.html')):
        proj.write(tp / name / 'html' / 'template.html', ext % parent)
    (tp / 'default').mkdir()
    settings.module_template_paths[1:] = [tp]
    src = t / 'up' / 'src'
    rel = DOCS[where]
    head = {'targets': 'html'}
    body = dict(head)
    if tpl:
        body['template'] = ['', 'c26/parent', 'c26/child'][tpl]
    for d in ('ch1/in', 'ch2'):
        (src / d).mkdir(parents=True, exist_ok=True)
    proj.write(src / rel, proj.dm(body, 'text'))
    proj.write(src / 'main.dm', proj.dm(head, 'text', include=[rel]))
    empty = t / 'cwd'
    empty.mkdir()
    os.chdir(str(empty))
    env = proj.environment(src / 'main.dm', t / 'up')
    doc = list(env.root_document.subdocuments.values())[0]
    places = dict(child=tp / 'c26/child', parent=tp / 'c26/parent', local=(src / rel).parent, root=src, above=t / 'up',
                  sibling=src / 'ch2', other=tp / 'c26/other')
    order = [[], ['parent'], ['child', 'parent']][tpl] + ['local', 'root']
    return env, doc, places, order, t / 'up'


def expected(ref, places, order):
    """The (place, path in it) that every line of the reference is found at"""
    res = []
    for line in ref.strip().splitlines():
        line = line.strip()
        if not line:
            continue
        if line.startswith('/'):
            if os.path.isfile(line):
                res.append((None, line))
            continue
        for p in order:
            if len(line) < 200 and os.path.isfile(os.path.join(str(places[p]), line)):
                res.append((p, line))
                break
    return res


def run(case):
    from disseminate.paths.utils import find_file, find_files
    from disseminate.tags.tag import TagFactory
    oc = Outcome()
    cwd = os.getcwd()
    tmp = mc.newdir('search')
    env, doc, places, order, target = project(tmp, case['where'], case['tpl'])
    ctx = doc.context
    ref, fname = NAMES[case['name']]
    if ref.startswith('abs:'):
        ref = str(places[ref[4:]] / fname)
    got_order = [os.path.normpath(str(p)) for p in ctx['paths']]
    mine = [os.path.normpath(str(places[p])) for p in order]
    oc.expect([p for p in got_order if p in mine] == list(dict.fromkeys(mine)), 'paths', 'the paths are %s, not %s' % (got_order, mine))
    for bits in itertools.product((0, 1), repeat=len(PLACES)):
        use = [p for p, b in zip(PLACES, bits) if b]
        made = []
        texts = {}
        for p in use:
            f = places[p] / fname
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text('content of ' + p)
            made.append(f)
        # places may be the same directory
        want = expected(ref, places, order)
        wpaths = [os.path.join(str(places[p]), line) if p else line for p, line in want]
        desc = '%r in %s with the file in %s' % (ref, DOCS[case['where']], use)
        what = 'found' if want else 'missing'
        oc.transitions += 5
        oc.traces += 1
        oc.state((ref, case['where'], case['tpl'], tuple(use)))

        got = find_files(ref, ctx)
        ok = len(got) == len(want) and all(os.path.samefile(str(g), w) for g, w in zip(got, wpaths))
        oc.expect(ok, 'find_files:' + what, '%s gives %s, not %s' % (desc, got, wpaths))
        for g, (p, line) in zip(got, want):
            if p in ('local', 'root'):
                base = places[p].relative_to(places['root'])
                oc.expect(os.path.normpath(str(getattr(g, 'subpath', None))) == os.path.normpath(str(base / line)), 'subpath',
                          '%s gives the subpath %s' % (desc, getattr(g, 'subpath', None)))
                oc.expect(os.path.normpath(str(getattr(g, 'project_root', None))) == str(places['root']), 'project root',
                          '%s gives the project root %s' % (desc, getattr(g, 'project_root', None)))
        first = [l.strip() for l in ref.strip().splitlines() if l.strip()][0]
        w1 = expected(first, places, order)
        got = find_file(ref, ctx, raise_error=False)
        if w1:
            w = os.path.join(str(places[w1[0][0]]), first) if w1[0][0] else first
            oc.expect(got is not None and os.path.samefile(str(got), w), 'find_file:found', '%s gives %s, not %s' % (desc, got, w))
        else:
            oc.expect(got is None, 'find_file:missing', '%s gives %s' % (desc, got))
            try:
                got = find_file(ref, ctx)
                oc.fail('find_file:missing', '%s gives %s without an error' % (desc, got))
            except OSError:
                pass

        # an image
        if not any(c in ref for c in '%'):
            try:
                tag = TagFactory.tag(tag_name='img', tag_content=ref, tag_attributes='', context=ctx)
                out = tag.add_file(target='.html')
                got = [b for b in tag.infilepaths][0]
            except Exception as e:
                out = got = None
                if want:
                    oc.fail('img:error', '%s: the image gives %r' % (desc, e))
                else:
                    oc.expect(type(e).__name__ == 'ImgFileNotFound', 'img:error', '%s: the image gives %r' % (desc, e))
            if got is not None:
                oc.expect(bool(want) and os.path.samefile(str(got), wpaths[0]), 'img', '%s: the image is %s, not %s' % (desc, got, wpaths))
                if want and want[0][0] in ('local', 'root'):
                    p, line = want[0]
                    base = places[p].relative_to(places['root'])
                    w = os.path.normpath(str(base / line))
                    o = os.path.normpath(str(out))
                    if w.startswith('..'):      # a file outside of the project is somewhere in the target's directory
                        w = str(target / 'html')
                        ok = o.startswith(w + '/') and os.path.basename(o) == os.path.basename(line)
                    else:
                        w = os.path.normpath(str(target / 'html' / 'media' / w))
                        ok = o == w
                    oc.expect(ok, 'img:out', '%s: the image is at %s, not %s' % (desc, out, w))

        # code and data
        code = TagFactory.tag(tag_name='code', tag_content=ref, tag_attributes='', context=ctx)
        if want:
            w = '\n'.join(pathlib.Path(p).read_text() for p in wpaths)
            oc.expect(code.content == w, 'code', '%s: the code is %r, not %r' % (desc, code.content, w))
        else:
            oc.expect(code.content == ref, 'code:missing', '%s: the code is %r' % (desc, code.content))
        data = TagFactory.tag(tag_name='csv', tag_content=ref, tag_attributes='noheader', context=ctx)
        txt = ' '.join(str(data.txt).split())
        if want:
            w = pathlib.Path(wpaths[0]).read_text()
            oc.expect(txt == w, 'csv', '%s: the data is %r, not %r' % (desc, txt, w))
        else:
            oc.expect('content of' not in txt, 'csv:missing', '%s: the data is %r' % (desc, txt))
        for f in made:
            if f.exists():
                f.unlink()
    os.chdir(cwd)
    mc.rmdir(tmp)
    return oc
