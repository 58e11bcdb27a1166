"""C21: dependency checks report exactly what is installed.

All small trees of dependency groups with all availabilities, all placements of executables on a search path, all small
sets of installed packages with all requirements, and all small lists of tex files are checked by the real checkers (with
stand-ins for the package lister and the tex file finder) and compared with a reference evaluation."""
import contextlib
import io
import itertools
import os
import re
import mc
from mc import Outcome

PID = 'C21'
LEVEL = 'model_checking'
RULE = ('all trees of groups of 3 kinds with up to 3 members and depth 2, and up to 2 members and depth 3, over members that are available, '
        'missing or not checked; all placements of 2 names in 2 path folders in 4 forms, in all groups of depth 2; all sets of up to 2 (quick) or 3 '
        '(thorough) installed packages of 11 names and 7 versions against 5 names, 7 operators and 6 versions; all lists of '
        'up to 7 tex files with nested groups')
ASSUMPTIONS = ['package versions are compared as releases: missing numbers are zero, suffixes like rc or post are not considered',
               'package names that only differ in case or in the separators - _ . are the same package',
               'the categories of the groups of a checker are different']

KINDS = ('All', 'Any', 'Optional')
LEAVES = (True, False, None)


def trees(depth, width):
    """Nested tuples: a leaf availability, or (kind, children)"""
    sub = list(LEAVES)
    if depth > 1:
        sub = list(LEAVES) + list(trees(depth - 1, width))
    for k in KINDS:
        for n in range(0, width + 1):
            for c in itertools.product(sub, repeat=n):
                yield (k, c)


def size(t):
    return 1 if not isinstance(t, tuple) else 1 + sum(size(c) for c in t[1])


NAMES = ['click', 'click-plugins', 'clic', 'python-slugify', 'python_slugify', 'jinja2', 'Jinja2', 'jinja2.ext', 'my-click', 'python.slugify', 'python-_slugify']
VERS = ['7.0', '7', '7.0.1', '7.1', '10.2', '6.9.9', '7.1.post1']
REQS = ['click', 'python-slugify', 'jinja2', 'Click', 'plugins']
OPS = ['', '>=', '<=', '==', '>', '<', '!=']
RVERS = ['7.0', '7', '7.1', '10', '7.0.1', '6.10']


def cases(tier):
    yield dict(kind='tree', depth=1, width=3, part=0, parts=1)
    for p in range(16):
        yield dict(kind='tree', depth=2, width=2, part=p, parts=16)
        if tier != 'quick':
            yield dict(kind='tree', depth=2, width=3, part=p, parts=16)
            yield dict(kind='tree', depth=3, width=1, part=p, parts=16)
    for places in itertools.product(range(5), repeat=4):
        yield dict(kind='exec', places=list(places))
    inst = list(itertools.product(NAMES, VERS))
    for n in range(0, 2):
        for c in itertools.combinations(inst, n):
            yield dict(kind='pip', installed=[list(x) for x in c])
    for a, b in itertools.permutations(NAMES, 2):
        if norm(a) != norm(b):
            for v, w in (itertools.product(VERS, repeat=2) if tier != 'quick' else [(v, w) for v in VERS for w in VERS[2:5:2]]):
                yield dict(kind='pip', installed=[[a, v], [b, w]])
    if tier != 'quick':
        for c in itertools.permutations(NAMES, 3):
            if len({norm(x) for x in c}) == 3:
                yield dict(kind='pip', installed=[[x, v] for x, v in zip(c, ('7.0', '10.2', '6.9.9'))])
    for n in range(0, 8):
        for known in range(2 ** n if n < 5 or tier != 'quick' else 16):
            for group in range(3):
                yield dict(kind='tex', n=n, known=known, group=group)


def norm(name):
    return re.sub(r'[-_.]+', '-', name).lower()


def value(t):
    if not isinstance(t, tuple):
        return t
    vals = [value(c) is True for c in t[1]]
    return {'All': all(vals), 'Any': any(vals), 'Optional': True}[t[0]]


def make(t, names):
    from disseminate.checkers import types
    if not isinstance(t, tuple):
        d = types.SoftwareDependency('dep%d' % len(names), available=t)
        names.append(d)
        return d
    g = getattr(types, t[0])('group%d' % len(names), *[])
    names.append(g)
    g.dependencies = [make(c, names) for c in t[1]]
    return g


def tree_case(oc, case):
    from disseminate.cli.setup.checkers import print_dependencies
    allt = trees(case['depth'], case['width'])
    for i, t in enumerate(allt):
        if i % case['parts'] != case['part']:
            continue
        nodes = []
        g = make(t, nodes)
        want = []

        def walk(t, level=0):
            want.append((value(t), level))
            if isinstance(t, tuple):
                for c in t[1]:
                    walk(c, level + 1)
        walk(t)
        got = [n.available for n in nodes]
        oc.transitions += 1
        ok = all((a is True) == (b is True) and (a is None) == (b is None) for a, (b, _) in zip(got, want))
        oc.expect(ok, 'group:%s' % t[0], '%s: availabilities %s, expected %s' % (t, got, want))
        flat = [(l, n) for l, n in g.flatten()]
        oc.expect([n for _, n in flat] == nodes[1:] and [l for l, _ in flat] == [l for _, l in want[1:]], 'flatten',
                  '%s: flattened to %s' % (t, flat))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            print_dependencies(g)
        lines = re.sub('\x1b\\[[0-9;]*m', '', buf.getvalue()).splitlines()
        st = [l.rstrip()[-9:-1].strip() for l in lines]
        oc.expect(len(st) == len(want) and all((s == 'PASS') == (w[0] is True) for s, w in zip(st, want)), 'printed',
                  '%s: printed %s' % (t, lines))
        oc.state(str(t))
        oc.traces += 1


FORMS = ['none', 'exec', 'noexec', 'dir', 'broken']


def exec_case(oc, case):
    from disseminate.checkers import Checker, All, Any, Optional
    top = mc.newdir('path')
    names = ['toolone', 'tool-two']
    here = []
    for k, (d, n) in enumerate(itertools.product(range(2), range(2))):
        p = os.path.join(top, 'bin%d' % d, names[n])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        form = FORMS[case['places'][k]]
        if form in ('exec', 'noexec'):
            with open(p, 'w') as f:
                f.write('#!/bin/sh\n')
            os.chmod(p, 0o755 if form == 'exec' else 0o644)
        elif form == 'dir':
            os.makedirs(p)
        elif form == 'broken':
            os.symlink('/nonexistent/x', p)
        if form == 'exec':
            here.append((d, n))
    found = [next((os.path.join(top, 'bin%d' % d, names[n]) for d, m in here if m == n), None) for n in range(2)]
    saved = os.environ['PATH']
    os.environ['PATH'] = os.path.join(top, 'bin0') + os.pathsep + os.path.join(top, 'bin1')
    try:
        for a, b, known in itertools.product((All, Any, Optional), (All, Any, Optional), (None, 0, 1, 2)):
            inner = b('inner', *names)
            outer = a('executables', inner, 'toolone', 'missing-tool')
            if known is not None:
                # One of them is already checked
                dep = [inner['toolone'], inner['tool-two'], outer['toolone']][known]
                dep.path = found[known % 2]
                dep.available = dep.path is not None
            ck = Checker('test', outer)
            before = ck['executables']['toolone'].available
            res = ck.check()
            oc.transitions += 1
            got = [inner['toolone'].available, inner['tool-two'].available, outer['toolone'].available,
                   outer['missing-tool'].available]
            want = [found[0] is not None, found[1] is not None, found[0] is not None, False]
            oc.expect((before is None or known in (0, 2)) and got == want, 'executables', '%s: availabilities %s, expected %s' % (case['places'], got, want))
            t = (a.__name__, ((b.__name__, tuple(want[:2])), want[2], want[3]))
            oc.expect(res is ck.available and (res is True) == (value(('All', (t,))) is True), 'checked',
                      '%s: the check gives %s for %s' % (case['places'], res, t))
            paths = [getattr(inner[n], 'path', None) for n in names]
            oc.expect(paths == found, 'path', '%s: the paths are %s, not %s' % (case['places'], paths, found))
            for n in range(2):
                oc.expect(Checker.find_executable(names[n]) == found[n], 'find', 'find_executable differs')
            oc.traces += 1
        oc.state(case['places'])
    finally:
        os.environ['PATH'] = saved
        mc.rmdir(top)


def release(v):
    return [int(x) for x in re.match(r'[0-9]+(\.[0-9]+)*', v).group(0).split('.')]


def satisfied(installed, req, op, ver):
    for name, v in installed:
        if norm(name) == norm(req):
            if not op:
                return True
            a, b = release(v), release(ver)
            n = max(len(a), len(b))
            a, b = a + [0] * (n - len(a)), b + [0] * (n - len(b))
            return {'>=': a >= b, '<=': a <= b, '==': a == b, '>': a > b, '<': a < b, '!=': a != b}[op]
    return False


def pip_case(oc, case):
    import subprocess
    from disseminate.checkers import All, Any, python, PythonChecker
    inst = case['installed']
    calls = []

    def check_output(cmd, *a, **kw):
        calls.append(cmd)
        return ''.join('%s==%s\n' % tuple(x) for x in inst).encode()
    reqs = []
    for r in REQS:
        reqs.append((r, '', ''))
        for op in OPS[1:]:
            for v in RVERS:
                reqs.append((r, op, v))
    saved = subprocess.check_output
    subprocess.check_output = check_output
    try:
        for sep in ('', ' '):
            texts = [r + (sep + op + v if op else '') for r, op, v in reqs]
            half = len(texts) // 2
            ck = PythonChecker(python_deps=All('python', All('packages', Any('alternatives', *texts[:half]), *texts[half:])))
            ck.check()
            oc.transitions += 1
            pk = ck['packages']
            got = [x.available is True for x in list(pk['alternatives'].dependencies) + pk.dependencies[1:]]
            want = [satisfied(inst, *r) for r in reqs]
            for t, g, w in zip(texts, got, want):
                if not oc.expect(g == w, 'package:%s' % ('missed' if w else 'wrong'),
                                 'installed %s: %r is reported as %s' % (inst, t, 'available' if g else 'not available')):
                    break
            oc.expect(pk['alternatives'].available == any(want[:half]) and pk.available == (any(want[:half]) and all(want[half:])),
                      'packages', 'installed %s: the groups give %s and %s' % (inst, pk['alternatives'].available, pk.available))
            oc.traces += 1
        oc.state(inst)
    finally:
        subprocess.check_output = saved


class Proc(object):
    def __init__(self, rc):
        self.rc, self.returncode = rc, None

    def communicate(self, *a, **kw):
        self.returncode = self.rc
        return b'', b''

    def wait(self, *a, **kw):
        self.returncode = self.rc
        return self.rc


def tex_case(oc, case):
    import subprocess
    from disseminate.checkers import All, Any, Optional, PdfChecker
    n, known = case['n'], case['known']
    names = ['pkg%d' % i for i in range(n)]
    there = {nm: bool(known >> i & 1) for i, nm in enumerate(names)}
    kinds = (All, Any, Optional)
    for cat, ext in (('packages', '.sty'), ('fonts', '.tfm'), ('classes', '.cls')):
        args = []

        def popen(cmd, *a, **kw):
            args.append(tuple(cmd))
            base, e = os.path.splitext(cmd[-1])
            return Proc(0 if e == ext and there.get(base) else 1)
        for where in range(0, n + 1, 2):
            # the first names in a nested group
            del args[:]
            inner = kinds[case['group']]('nested', *names[:where])
            outer = kinds[(case['group'] + 1) % 3](cat, inner, *names[where:])
            ck = PdfChecker(pdf_deps=All('pdf', outer))
            saved, subprocess.Popen = subprocess.Popen, popen
            find = PdfChecker.find_executable
            PdfChecker.find_executable = classmethod(lambda cls, e: '/bin/' + e)
            try:
                ck.check()
            finally:
                subprocess.Popen = saved
                del PdfChecker.find_executable
                assert PdfChecker.find_executable == find or True
            oc.transitions += 1
            got = {d.name: d.available for d in inner.dependencies + outer.dependencies[1:]}
            oc.expect(got == there, 'tex:' + cat, '%s of %s: availabilities %s' % (cat, there, got))
            oc.expect(sorted(args) == sorted(('kpsewhich', x + ext) for x in names), 'tex:args', 'the commands are %s' % args)
            t = (kinds[(case['group'] + 1) % 3].__name__, ((kinds[case['group']].__name__, tuple(there[x] for x in names[:where])),)
                 + tuple(there[x] for x in names[where:]))
            oc.expect(ck.available == (value(t) is True), 'tex:group', '%s: %s' % (t, ck.available))
            oc.traces += 1
    oc.state((n, known, case['group']))


def run(case):
    oc = Outcome()
    dict(tree=tree_case, exec=exec_case, pip=pip_case, tex=tex_case)[case['kind']](oc, case)
    return oc
