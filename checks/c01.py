"""C01: an incremental build leaves the files that a clean build gives.

All histories of edits (up to a depth) of a four-document project are run on the real code, each build being made either
in the same process (as the preview server does) or in a new process over the same output directory (as the command line
does); after every build all files of a clean build of the same sources, made at the same place, are compared."""
import itertools
import os
import mc
import build
from mc import Outcome

PID = 'C01'
LEVEL = 'model_checking'
RULE = ('all histories of edits up to depth 2 (quick: a quarter of the ordered pairs, each with one of the 4 patterns of processes; thorough: all patterns, and depth 3) from 25 edits of a project of 4 documents with '
        'chapters, references, a table of contents, images, a csv table, a code file and macros, built for html, tex, '
        'xhtml, txt, pdf and epub, crossed with the process of each build (same or new process); after each build every file of a '
        'clean build at the same place is compared; a state is the sources and the output files')
ASSUMPTIONS = ['modification times strictly increase with edits', 'external commands are stand-ins whose output is a '
               'function of the contents of the files they name', 'all builders are available',
               'no input is edited while a build runs']
CASE_TIMEOUT = 600

TOGGLES = ['a_body', 'b_body', 'c_body', 'b_title', 'a_chapter', 'ref', 'title', 'author', 'macro', 'order', 'incl_d',
           'img', 'csv', 'code', 'b_targets', 'template', 'c_caption', 'c_title', 'b_attr', 'c_img']
BREAKS = ['del_html', 'dam_tex', 'del_img', 'dam_img', 'dam_pdf']
# a deleted or damaged copy of an image or a generated file, in a new process
BASE = {k: 0 for k in TOGGLES}


def sources(state):
    s = dict(state)
    inc = ['b.dm', 'c.dm']
    if s['order']:
        inc = ['c.dm', 'b.dm']
    if s['incl_d']:
        inc.append('d.dm')
    f = {}
    f['a.dm'] = ('---\ntitle: %s\nauthor: %s\n%stargets: html, tex, xhtml, pdf, epub\ntemplate: %s\n@mac: %s\ninclude:\n%s'
                 '---\n@chapter[id=ch-a]{Alpha}\n%sText %s of alpha. See @ref{%s}.\n\n@toc{all headings}\n\n@img{pic.png}\n'
                 % ('One' if not s['title'] else 'Two', 'Ann' if not s['author'] else 'Bob', '',
                    'default' if not s['template'] else 'books/tufte', 'M1' if not s['macro'] else '@b{M2}',
                    ''.join('  %s\n' % i for i in inc),
                    '' if not s['a_chapter'] else '@chapter[id=ch-x]{Extra}\n',
                    'one' if not s['a_body'] else 'two', 'ch-b' if not s['ref'] else 'fig'))
    f['b.dm'] = ('---\n%slabels: x\n---\n@chapter[id=ch-b]{%s}\n@section[id=se-b]{Section}\nText %s of beta, @mac. '
                 'See @ref{fig} and @ref{ch-c}.\n\n@csv{data.csv}\n@python{code.py}\n%s\n'
                 % ('' if not s['b_targets'] else 'targets: html, xhtml\n', 'Beta' if not s['b_title'] else 'Gamma',
                    'one' if not s['b_body'] else 'two',
                    '@b[html.class=%s]{attr}' % ('p' if not s['b_attr'] else 'q')))
    f['c.dm'] = ('---\n%s---\n@chapter[id=ch-c]{Delta}\nText %s of gamma. See @ref{ch-a}.\n\n@figure{@img{%s.png} '
                 '@caption[id=fig]{%s}}\n'
                 % ('' if not s['c_title'] else 'title: Cee\n', 'one' if not s['c_body'] else 'two',
                    'fig1' if not s['c_img'] else 'pic', 'Caption' if not s['c_caption'] else 'Legend'))
    f['d.dm'] = '---\ntargets: html, txt\ntemplate: default\n---\n@chapter[id=ch-d]{Dee}\nText of dee.\n'
    f['pic.png'] = b'\x89PNG one' if not s['img'] else b'\x89PNG two'
    f['fig1.png'] = b'\x89PNG fig'
    f['data.csv'] = 'x,y\n1,2\n' if not s['csv'] else 'x,y\n3,4\n'
    f['code.py'] = 'a = 1\n' if not s['code'] else 'b = 2\n'
    return f


def apply(prj, edit):
    if edit in TOGGLES:
        state = dict(prj.state)
        state[edit] = 1 - state[edit]
        prj.put(state)
        return
    out = prj.out
    path = dict(del_html='html/b.html', dam_tex='tex/a.tex', del_img='html/media/pic.png', dam_img='tex/media/pic.png',
                dam_pdf='pdf/c.pdf')[edit]
    p = os.path.join(out, path)
    if edit.startswith('del'):
        os.unlink(p)
    else:
        with open(p, 'wb') as f:
            f.write(b'damaged')


PRJ = {}


def setup():
    build.install()
    PRJ['p'] = build.Project(sources)


def cases(tier):
    edits = TOGGLES + BREAKS
    yield dict(first=[], last=[None], modes=['N', 'S'])
    for e in edits:
        yield dict(first=[], last=[e], modes=['S', 'N'])
    patterns = ('SS', 'NN', 'SN', 'NS')
    for i, e in enumerate(edits):
        for k, pattern in enumerate(patterns):
            # quick: a quarter of the ordered pairs of edits, each with one of the patterns
            last = [x for j, x in enumerate(edits) if tier != 'quick' or (i + 3 * j) % 16 == k]
            yield dict(first=[e], last=last, modes=[pattern])
    if tier != 'quick':
        for e1, e2 in itertools.product(edits, repeat=2):
            for pattern in ('SSS', 'NNN', 'SNS'):
                yield dict(first=[e1, e2], last=edits, modes=[pattern])


def history(oc, prj, edits, modes):
    prj.reset_built(dict(BASE))
    if modes[0] == 'S':
        prj.build('N')
        oc.transitions += 1
    done = []
    for e, m in zip(edits, modes):
        if e is not None:
            apply(prj, e)
        done.append('%s/%s' % (e, m))
        state = prj.state
        try:
            st = prj.build(m)
        except Exception as ex:
            st = '%s: %s' % (type(ex).__name__, str(ex)[:200])
        oc.transitions += 1
        cst, want = prj.clean(state)
        oc.state((st, sorted(state.items()), sorted((k, mc.h(repr(v))) for k, v in want.items())))
        got = build.snapshot(prj.out)
        if not oc.expect(st == cst, 'status:%s:%s' % (e, m), '%s: the build gives %r, a clean build %r' % (done, st, cst)):
            return
        if st != 'done':
            oc.merge_info(not_buildable=1)
            if os.environ.get("SHOW"): print(done, st)
            continue
        bad = [k for k in sorted(want) if got.get(k) != want[k]]
        if bad:
            k = bad[0]
            a, b = got.get(k), want[k]
            detail = 'missing'
            if a is not None:
                al, bl = a.splitlines(), b.splitlines()
                d = [(x, y) for x, y in itertools.zip_longest(al, bl) if x != y][:2]
                detail = repr(d)[:700]
            oc.fail('differs:%s:%s:%s' % (e, m, os.path.splitext(bad[0])[1]),
                    'after %s the files %s differ from a clean build; %s: %s' % (done, bad[:8], k, detail))
            return
    oc.traces += 1


def run(case):
    oc = Outcome()
    prj = PRJ['p']
    for last in case['last']:
        for modes in case['modes']:
            history(oc, prj, case['first'] + [last], modes)
    prj.close()
    return oc
