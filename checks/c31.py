"""C31: a width given in percent is one of the documented widths, in every target.

Every percentage, in each notation, for each target, on each tag with a width is rendered by the real tags; the widths that are
found in the html, xhtml and tex are compared with the documented ones (quarter, third, half, two thirds, three quarters, full)."""
import itertools
import os
import re
import mc
import proj
from mc import Outcome

PID = 'C31'
LEVEL = 'model_checking'
RULE = ('all percentages from 1 to 100 in steps of 1 and 0.5 (thorough: 0.1), and the fractions 0.01 to 1.00, in 4 notations, as the width of '
        'all targets or of one (before or after the others\'), and lengths in 8 forms, on images and panels, alone and in 4 kinds of figures, rendered in html, xhtml '
        'and tex; a state is the width and what it is in each target')
ASSUMPTIONS = ['percentages over 100 and of 0 have no documented width']

BOUNDS = [25, 33, 50, 67, 75, 100]
CLASSES = {'w25': 25, 'w33': 33, 'w50': 50, 'w66': 67, 'w75': 75, 'w100': 100}
FORMS = ['{}%', '"{}%"', 'fraction', '{} %']
PLACES = ['width={0}', 'width={0} width.{1}=10%', 'width=10% width.{2}={0}', 'width.{2}={0} width=10%', 'class=x width={0} width.{1}=10%']
TAGS = ['img', 'panel', 'figure', 'marginfig', 'ffig', 'fullfigure']
UNITS = ['2in', '150px', '3.2cm', '10pt', '4em', '0.5in', '2ex', '"2 in"']


def cases(tier):
    for tag, form in itertools.product(TAGS, range(len(FORMS))):
        for place in range(len(PLACES)):
            for target in ('html', 'xhtml', 'tex'):
                if tag in ('img', 'panel') or (form == 0 and place == 0):
                    yield dict(tag=tag, form=form, place=place, target=target, steps=10 if tier == 'thorough' else 2)


def source(tag, attrs, i):
    inner = '@img[%s]{a.png}' % attrs if tag == 'img' else '@panel[%s]{in %d}' % (attrs, i)
    if tag not in ('img', 'panel'):
        inner = '@%s{%s}' % (tag, inner)
    return 'before %d. %s after %d.\n\n' % (i, inner, i)


def bounds(p):
    """The documented widths for a percentage: the smallest that is large enough; between two whole numbers either one."""
    lo, hi = int(p // 1), int(-(-p // 1))
    return {min(b for b in BOUNDS if b >= max(x, 1)) for x in ({lo, hi} if lo != hi else {lo})}


def run(case):
    oc = Outcome()
    tag, target = case['tag'], case['target']
    other = {'html': 'tex', 'xhtml': 'tex', 'tex': 'html'}[target]
    values = []
    if FORMS[case['form']] == 'fraction':
        values = [('0.%02d' % p if p < 100 else '1.0', p) for p in range(1, 101)] + [('0.%03d' % p, p / 10) for p in range(1, 1000)
                                                                                    if case['steps'] == 10 or p % 10 == 5]
    else:
        for k in range(case['steps'], 100 * case['steps'] + 1):
            p = k / case['steps']
            values.append((FORMS[case['form']].format('%g' % p), p))
    if case['form'] == 3:
        # an unquoted space ends a value
        values = [('"%s"' % v, p) for v, p in values]
    if case['form'] == 0:
        values += [(u, None) for u in UNITS]
    base = mc.newdir('c31')
    src = os.path.join(base, 'src')
    proj.write(os.path.join(src, 'a.png'), b'not an image')
    text = ''.join(source(tag, PLACES[case['place']].format(v, other, target), i) for i, (v, p) in enumerate(values))
    proj.write(os.path.join(src, 'main.dm'), proj.dm({'targets': 'html, xhtml, tex'}, text))
    here = os.getcwd()
    try:
        env = proj.environment(os.path.join(src, 'main.dm'), base)
        body = env.root_document.context['body']
        for t in ('html', 'xhtml', 'tex'):
            out = str(getattr(body, t))
            if case['place'] in (2, 3) and t != target or case['place'] in (1, 4) and t == other:
                want = lambda p: {25}
            else:
                want = bounds
            judge(oc, case, t, out, values, want)
        oc.traces += len(values)
        db = env.decider._db
        if db is not None:
            db.close()
    finally:
        os.chdir(here)
        mc.rmdir(base)
    return oc


def judge(oc, case, t, out, values, want):
    last = 0
    for i, (v, p) in enumerate(values):
        m = re.search(r'(?s)before %d\.(.*?)after %d\.' % (i, i), out)
        what = '%s, %s in %s' % (PLACES[case['place']].format(v, '…', case['target']), case['tag'], t)
        if m is None:
            oc.fail('lost', '%s: %r' % (what, out[:200]))
            continue
        piece = m.group(1)
        need = want(p) if p is not None or want is not bounds else None
        if t == 'tex':
            m = re.search(r'\\includegraphics\[([^\]]*)\]', piece) if case['tag'] == 'img' else re.search(r'\\begin\{panel\}\{([^}]*)\}', piece)
            arg = m.group(1) if m else None
            if case['tag'] == 'img' and arg is not None:
                ws = [x.split('=', 1)[1].strip() for x in arg.split(',') if x.strip().startswith('width=')]
                arg = ws[0] if len(ws) == 1 else repr(ws)
            if need is None:
                oc.expect(arg == v.strip('"'), 'length', '%s: %r' % (what, piece))
                continue
            m = re.match(r'(0?\.\d+|1(?:\.0*)?)\\textwidth$', arg or '')
            got = [b for b in BOUNDS if m and b / 100 - 0.03 <= float(m.group(1)) <= b / 100 + 1e-9]
        else:
            cls = re.search(r'<(?:img|panel|span)\b[^>]*\bclass="([^"]*)"', piece)
            got = [CLASSES[c] for c in (cls.group(1).split() if cls else []) if c in CLASSES]
            if need is None:
                oc.expect(not got, 'length', '%s: %r' % (what, piece))
                continue
        oc.expect(len(got) == 1 and got[0] in need, 'width', '%s: %r; expected one of %r percent' % (what, piece.strip()[:200], sorted(need)))
        oc.state([t, p, got])
        oc.transitions += 1
    oc.nontrivial += 1
